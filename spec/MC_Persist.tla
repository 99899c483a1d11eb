----------------------------- MODULE MC_Persist -----------------------------
(* Every history of saves and damage to one folder, and then every load.      *)
EXTENDS Persist, Json
CONSTANTS MaxLen
VARIABLES f, hist
Slots == {"a", "b", "g", "d"}
Objects(s) ==
    IF s = "d" THEN {[NoObj EXCEPT !.data = d] : d \in {1, 2}} ELSE
    {[pid |-> 1, data |-> d, mask |-> m, pos |-> IF s = "g" THEN 1 ELSE 0,
      meas |-> IF s = "g" THEN m ELSE 0] : d \in {1}, m \in {0, 1, 2}}
    \cup {[pid |-> 2, data |-> 2, mask |-> 0, pos |-> IF s = "g" THEN 1 ELSE 0,
           meas |-> 0]}
Init == f = EmptyFolder /\ hist = <<>>
DoSave == \E s \in Slots : \E o \in Objects(s) :
            /\ f' = Save(f, s, o)
            /\ hist' = Append(hist, [op |-> "save", slot |-> s, obj |-> o])
DoParams == \E p \in {1, 2} :
              /\ f' = SaveParams(f, p)
              /\ hist' = Append(hist, [op |-> "save", slot |-> "params",
                                       obj |-> [NoObj EXCEPT !.pid = p]])
DoHurt == \E s \in Slots \cup {"params"}, k \in {"need", "torn", "gone"} :
            /\ IF s = "params" THEN k = "need" /\ f.pid # 0
               ELSE /\ Slot(f, s) # NoObj
                    /\ k # "need" => Slot(f, s).mask # 0
                    /\ k = "torn" => ~Is(f, s, "gone")
            /\ f' = Hurt(f, s, IF k = "need" THEN "d" ELSE "m", k)
            /\ hist' = Append(hist, [op |-> "hurt", slot |-> s, kind |-> k])
Next == Len(hist) < MaxLen /\ (DoSave \/ DoParams \/ DoHurt)
Spec == Init /\ [][Next]_<<f, hist>>

Emit == Len(hist') = MaxLen => PrintT("EDGE " \o ToJson(hist'))
\* a save repairs everything that loading what was saved needs
Inv == hist # <<>> =>
    LET h == hist[Len(hist)] IN
    /\ h.op = "save" => /\ ~MustFail(f, h.slot) /\ ~Free(f, h.slot)
                        /\ Loaded(f, h.slot) = h.obj
    /\ (h.op = "hurt" /\ h.kind # "gone") => MustFail(f, h.slot)
=============================================================================
