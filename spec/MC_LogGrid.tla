----------------------------- MODULE MC_LogGrid -----------------------------
(* Every history of calls of a grid, with what is written at each of them.    *)
EXTENDS Log, TLC, Json
CONSTANTS MaxLen
VARIABLES s, out, drops, hist
Empty == [ecl |-> FALSE, grads |-> 0, fit |-> FALSE]
Init == s = Empty /\ out = <<>> /\ drops = 0 /\ hist = <<>>
\* the state after an accepted call
After(op, a) ==
    CASE op = "eclipse" -> [ecl |-> TRUE, grads |-> 0, fit |-> FALSE]
      [] op = "add" /\ s.ecl -> [s EXCEPT !.grads = @ + a.count, !.fit = FALSE]
      [] op = "remove" /\ s.grads > 0 -> [s EXCEPT !.grads = @ - a.count, !.fit = FALSE]
      [] op = "rescale" /\ a.any -> [s EXCEPT !.fit = FALSE]
      [] op = "fit" /\ s.grads > 0 -> [s EXCEPT !.fit = TRUE]
      [] OTHER -> s
No == [count |-> 0, most |-> 0, any |-> FALSE]
Do(op, a, kind) ==
    /\ s' = After(op, a)
    /\ out' = GridChange(op, a, s, After(op, a)) \o Discarded(s, After(op, a))
    /\ drops' = drops + (IF s.fit /\ ~s'.fit THEN 1 ELSE 0)
    /\ hist' = Append(hist, [op |-> op, kind |-> kind, count |-> a.count])
Reject == \E op \in {"eclipse", "add", "remove", "rescale", "extract", "fit"} :
    /\ (op = "extract" => s.fit)
    /\ (op \in {"remove", "rescale"} => s.grads > 0)
    /\ (op = "fit" => s.grads > 0)
    /\ (op = "add" => s.ecl)
    /\ UNCHANGED <<s, drops>> /\ out' = <<>>
    /\ hist' = Append(hist, [op |-> op, kind |-> "bad", count |-> 0])
Next ==
    /\ Len(hist) < MaxLen
    /\ \/ Do("eclipse", No, "good")
       \/ \E n \in 0..2 : s.grads + n <= 3 /\ Do("add", [No EXCEPT !.count = n], "good")
       \/ \E n \in 0..s.grads : Do("remove", [No EXCEPT !.count = n], "good")
       \/ \E k \in {"none", "velocity", "darkening", "transmissions"} :
             Do("rescale", [No EXCEPT !.any = (k # "none")], k)
       \/ \E k \in {"weighted", "plain"} : Do("fit", No, k)
       \/ Do("read", No, "good")
       \/ Do("hill", No, "good")
       \/ s.fit /\ \E k \in {"all", "some", "none"} : Do("extract", No, k)
       \/ Reject
Spec == Init /\ [][Next]_<<s, out, drops, hist>>
View == <<s, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
Inv == /\ s.fit => s.grads > 0 /\ s.ecl
       /\ s.grads > 0 => s.ecl
       /\ \A k \in 1..Len(out) : out[k].lv = INFO
\* a fit never disappears silently, and nothing else says that one did
Told == [][(s.fit /\ ~s'.fit) <=> (OfKind(out', "cleared") # <<>>)]_<<s, out, drops, hist>>
=============================================================================
