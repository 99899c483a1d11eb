----------------------------- MODULE T_Display -----------------------------
(* r: [op, res, a, shape, data, mask (new), post (the contrast attributes),   *)
(* view]; view of a drawing: [axis, index, seen (the value under the pointer  *)
(* at each pair of grid coordinates), rows, cols (axis labels), ticks (place, *)
(* label), range (of the radii, 10^-6), values (value, colours, blank),       *)
(* pixels (row, column, colours, blank), own (drawn where it was asked for)]. *)
EXTENDS Display, TraceKit

None == [data |-> <<0>>, shape |-> <<1, 1, 1>>, mask |-> {}, c |-> <<>>]
Hidden(data, mask) == [k \in 1..Len(data) |-> IF k \in mask THEN NAN ELSE data[k]]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Agrees(v, colours, blank, c) ==
    IF v = NAN THEN blank
    ELSE ~blank /\ SetOf(colours) \cap Colours(v, c) # {}
After(r, st) ==
    CASE r.op = "new" -> [data |-> r.data, shape |-> r.shape, mask |-> {},
                          c |-> Contrast(r.data, r.a)]
      [] r.op = "contrast" /\ r.res = "ok" -> [st EXCEPT !.c = Contrast(st.data, r.a)]
      [] r.op = "mask" /\ r.res = "ok" -> [st EXCEPT !.mask = SetOf(r.mask)]
      [] OTHER -> st
ViewFails(r, s) ==
    LET v == r.view
        all == IF r.a.masked THEN Hidden(s.data, s.mask) ELSE s.data
        want == Slice(all, s.shape, v.axis, r.a.index)
    IN Must("C28.index", v.index = r.a.index)
       \cup Must("C28.place", v.seen = want)
       \cup Must("C28.labels", v.rows = Labels.rows[v.axis + 1] /\ v.cols = Labels.cols[v.axis + 1])
       \cup Must("C28.radius", v.axis = 2 \/
              (/\ \E k \in 1..Len(v.ticks) : TRUE
               /\ \A k \in 1..Len(v.ticks) : LET t == v.ticks[k] IN
                     Abs(t[2] - RadiusAt(t[1], 1000000, v.range)) <= 5010))
       \cup Must("C28.colour",
              \A k \in 1..Len(v.values) : LET x == v.values[k] IN
                  Agrees(x.v, x.colours, x.blank, s.c))
       \cup Must("C28.pixel",
              \A k \in 1..Len(v.pixels) : LET x == v.pixels[k] IN
                  /\ x.i \in 1..Len(want) /\ x.j \in 1..Len(want[1])
                  /\ Agrees(want[x.i][x.j], x.colours, x.blank, s.c))
       \cup Must("C28.own", v.own)
Judge(r, st) ==
    LET s == After(r, st) IN
    [st |-> s,
     fails |-> Must("C28.accepted", (r.op = "bad") = (r.res # "ok"))
               \cup Must("C28.contrast", r.post = s.c)
               \cup (IF r.op = "draw" /\ r.res = "ok" THEN ViewFails(r, s) ELSE {})]

VARIABLES l, st
TraceInit == l = 1 /\ st = None
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
