---------------------------- MODULE MC_Closest ----------------------------
(* A grid of two columns and rows at -Rows..Rows with one size per point,     *)
(* every mask made of a hill radius and of one gradient, every kind of query. *)
EXTENDS Closest, TLC, Json
CONSTANTS Rows, Sizes, MaxLen
VARIABLES m, hist
RowSet == (0 - Rows)..Rows
Size(p) == 1 + ((p[1] * p[1] + 2 * p[2]) % Sizes)
All == {p \in RowSet \X {0, 1} : ~(p[1] = 0 /\ p[2] # 0)}
Points == All
Side(p) == IF p[1] > 0 THEN 1 ELSE IF p[1] < 0 THEN -1 ELSE 0
Sign(b) == IF b > 0 THEN 1 ELSE IF b < 0 THEN -1 ELSE 0
D2(p, q) == (Size(p) - q.size) * (Size(p) - q.size) + (p[1] - q.b) * (p[1] - q.b)
Hidden(w) == {p \in All : w.hill # 0 /\ Size(p) > w.hill}
             \cup {p \in All : w.slope # 0 /\ (p[1] + p[2]) % 2 = w.slope - 1}
Found(w, q) == LET cand == Searched(Points, Hidden(w), q.masked)
                   Nf(a, b) == D2(a, q) <= D2(b, q)
               IN {p \in cand : MayReport(p, cand, Side, Sign(q.b), Nf)}
Queries == [size : 0..(Sizes + 1), b : (0 - Rows - 1)..(Rows + 1), masked : BOOLEAN]

Kinds == {"point", "near", "between", "random", "far", "other_side", "on_path", "bad"}
Log(r) == hist' = Append(hist, r)
Init == m = [hill |-> 0, slope |-> 0] /\ hist = <<>>
DoHill == \E h \in 0..2 : h # m.hill /\ h # 0 /\ m' = [m EXCEPT !.hill = h]
                          /\ Log([op |-> "hill", h |-> h])
DoSlope == \E k \in 0..2 : k # m.slope /\ m' = [m EXCEPT !.slope = k] /\ Log([op |-> "slope", k |-> k])
DoAsk == \E kind \in Kinds, masked \in BOOLEAN :
           UNCHANGED m /\ Log([op |-> "ask", kind |-> kind, masked |-> masked])
Next == Len(hist) < MaxLen /\ (DoHill \/ DoSlope \/ DoAsk)
Spec == Init /\ [][Next]_<<m, hist>>
View == <<m, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))

Inv == \A q \in Queries :
    LET cand == Searched(Points, Hidden(m), q.masked)
        good == RightSide(cand, Side, Sign(q.b))
    IN /\ (Found(m, q) = {}) <=> (good = {})
       /\ \A p \in Found(m, q) : p \in cand /\ (q.masked => p \notin Hidden(m))
       /\ \A p \in good : (Size(p) = q.size /\ p[1] = q.b) => \A f \in Found(m, q) : D2(f, q) = 0
       \* a masked search never finds a nearer point than an unmasked one
       /\ \A f \in Found(m, [q EXCEPT !.masked = TRUE]), g \in Found(m, [q EXCEPT !.masked = FALSE]) :
             D2(g, q) <= D2(f, q)
       \* without a side all candidates count
       /\ q.b = 0 => good = cand
=============================================================================
