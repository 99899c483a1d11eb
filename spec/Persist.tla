------------------------------ MODULE Persist ------------------------------
(* Folders to which grid parameters, grid properties, gradients and           *)
(* diagnostics (slot "d", without parameters) are saved.                      *)
(* An object is [pid, data, mask, pos, meas] (identities; 0: absent).  A      *)
(* folder keeps the parameters saved last and one object per slot (a property *)
(* name and unit); hurt lists the damaged files: <<slot or "params", kind>>   *)
(* kind>>, with kind "need" (a required file is missing or cut short), "torn" (an *)
(* optional file is cut short) or "gone" (an optional file is missing).       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

NoObj == [pid |-> 0, data |-> 0, mask |-> 0, pos |-> 0, meas |-> 0]
EmptyFolder == [pid |-> 0, slots |-> <<>>, hurt |-> {}]

Slot(f, s) == IF s \in DOMAIN f.slots THEN f.slots[s] ELSE NoObj

SaveParams(f, pid) ==
    [f EXCEPT !.pid = pid, !.hurt = {h \in @ : h[1] # "params"}]
Save(f, s, obj) ==
    LET g == IF s = "d" THEN f ELSE SaveParams(f, obj.pid)
    IN [g EXCEPT !.slots = (s :> obj) @@ @, !.hurt = {h \in @ : h[1] # s}]
Hurt(f, s, file, kind) ==
    [f EXCEPT !.hurt = {h \in @ : h[1] # s \/ h[2] # file} \cup {<<s, file, kind>>}]
Is(f, s, kind) == \E h \in f.hurt : h[1] = s /\ h[3] = kind

\* what loading a slot must give: "error", "free" or the object
MustFail(f, s) ==
    \/ s # "d" /\ f.pid = 0
    \/ \E k \in {"need", "torn"} : (s # "d" /\ Is(f, "params", k)) \/ Is(f, s, k)
    \/ s # "params" /\ Slot(f, s) = NoObj
Free(f, s) == ~MustFail(f, s) /\ s # "params" /\
              (Is(f, s, "gone") \/ (s # "d" /\ Slot(f, s).pid # f.pid))
Loaded(f, s) == IF s = "params" THEN [NoObj EXCEPT !.pid = f.pid] ELSE Slot(f, s)
=============================================================================
