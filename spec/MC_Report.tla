----------------------------- MODULE MC_Report -----------------------------
(* Objects of every class through their life: what changes a report, and what *)
(* a report says in every state.  Numbers are integers, printed in units of   *)
(* ten of them.                                                               *)
EXTENDS Report, TLC, Json
CONSTANTS MaxLen, MaxRows
VARIABLES m, hist
Classes == {"ring", "system", "params", "diagnostics", "property", "gradient", "viewer", "grid"}
Log(r) == hist' = Append(hist, r)
Blank(c) == [cls |-> c, rows |-> 0, mask |-> 0 - 1, meas |-> FALSE, step |-> 0, flat |-> FALSE]
Init == \E c \in Classes : m = Blank(c) /\ hist = <<[op |-> "new", cls |-> c]>>
HasRows == m.cls \in {"system", "diagnostics", "grid"}
DoGrow == HasRows /\ m.rows < MaxRows /\ m' = [m EXCEPT !.rows = @ + 1] /\ Log([op |-> "grow"])
DoShrink == m.cls \in {"system", "grid"} /\ m.rows > 0
            /\ m' = [m EXCEPT !.rows = @ - 1] /\ Log([op |-> "shrink"])
DoMask == m.cls \in {"property", "gradient", "grid"}
          /\ \E k \in 0..2 : m' = [m EXCEPT !.mask = k] /\ Log([op |-> "mask", k |-> k])
DoMeasure == (m.cls = "gradient" \/ (m.cls = "grid" /\ m.rows > 0))
             /\ m' = [m EXCEPT !.meas = TRUE] /\ Log([op |-> "measure"])
DoChange == m.cls # "diagnostics" /\ m' = [m EXCEPT !.step = (@ + 1) % 3] /\ Log([op |-> "change"])
DoFlat == m.cls \in {"property", "gradient"} /\ ~m.flat
          /\ m' = [m EXCEPT !.flat = TRUE] /\ Log([op |-> "flat"])
DoPrint == UNCHANGED m /\ Log([op |-> "print"])
Next == Len(hist) <= MaxLen /\ (DoGrow \/ DoShrink \/ DoMask \/ DoMeasure \/ DoChange \/ DoFlat \/ DoPrint)
Spec == Init /\ [][Next]_<<m, hist>>
View == <<m, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))

Params == [dx |-> <<1, 2>>, dy |-> <<m.step, 4>>, rf |-> 5, one |-> 1, nx |-> 2, ny |-> 1, nr |-> 2]
Row(k) == 10 * k + m.step
Prop == [title |-> "p", at |-> IF m.cls = "property" THEN <<>> ELSE <<Is(m.step)>>,
         lo |-> 0, hi |-> 9, data |-> IF m.flat THEN <<>> ELSE <<m.step, 5>>, size |-> 2,
         mask |-> m.mask, meas |-> IF m.meas THEN <<1, 2, 3, 4>> ELSE <<>>, params |-> Params]
Obj == CASE m.cls = "ring" -> [inner |-> m.step, outer |-> 5, trans |-> 1, incl |-> 2, tilt |-> 3]
         [] m.cls = "system" -> [planet |-> m.step, incl |-> 1, tilt |-> 2,
                                 inner |-> [k \in 1..m.rows |-> Row(k)],
                                 outer |-> [k \in 1..m.rows |-> Row(k) + 5],
                                 trans |-> [k \in 1..m.rows |-> k]]
         [] m.cls = "params" -> Params
         [] m.cls = "diagnostics" -> [saved |-> m.rows]
         [] m.cls \in {"property", "gradient"} -> Prop
         [] m.cls = "viewer" -> [title |-> ToString(m.step)]
         [] m.cls = "grid" -> [params |-> Params, maps |-> <<Prop, Prop, Prop>>,
                               grads |-> [k \in 1..m.rows |-> Prop], saved |-> 0 - 1,
                               masked |-> IF m.mask > 0 THEN m.mask ELSE 0, size |-> 2,
                               diag |-> <<0, 0 - 3>>]
Rep == ReportOf(m.cls, TRUE, Obj)
PropLen == 5 + (IF m.mask = 0 - 1 THEN 0 ELSE 1) + (IF m.meas THEN 4 ELSE 0)
Inv ==
    \* one row per ring, in order; one part per map and gradient
    /\ m.cls = "system" => /\ Len(Rep) = 3 + m.rows
                           /\ \A k \in 1..m.rows : /\ Rep[3 + k].nums[1] = Count(k)
                                                   /\ Rep[3 + k].nums[2] = Is(Row(k))
    /\ m.cls \in {"property", "gradient"} => Len(Rep) = PropLen + 4
    /\ m.cls = "grid" => Len(Rep) = 6 + (3 + m.rows) * PropLen
    /\ m.cls = "diagnostics" => Rep[1].nums = <<Count(m.rows)>>
    /\ m.cls = "params" => Rep[4].nums = <<Count(1), Count(2), Count(3)>>
\* a report changes exactly when what it reports does
Tells == [][(Rep' = Rep) <=> (m' = m)]_<<m, hist>>
=============================================================================
