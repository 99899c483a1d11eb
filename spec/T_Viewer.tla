------------------------------ MODULE T_Viewer ------------------------------
(* r: [op, res, up, cfg (new), post]; cfg: [axis, n, i, frozen, vals, c,      *)
(* text]: slice values and coordinates in units, and the slice values as the  *)
(* title has to print them; post: [i, img (the slices that the image agrees   *)
(* with), parsed, name, unit, coord, value, half, marks, strange].            *)
EXTENDS Viewer, TraceKit

None == [s |-> Start(2, 0, FALSE), cfg |-> [axis |-> 0, vals |-> <<0, 1>>, c |-> <<>>, text |-> <<"", "">>]]
Judge(r, st) ==
    LET cfg == IF r.op = "new" THEN r.cfg ELSE st.cfg
        s == IF r.op = "new" THEN Start(cfg.n, cfg.i, cfg.frozen)
             ELSE IF r.op = "scroll" THEN Scroll(st.s, r.up) ELSE st.s
        p == r.post
    IN [st |-> [s |-> s, cfg |-> cfg],
        fails |->
          Must("C12.accepted", r.res = "ok")
          \cup (IF r.res # "ok" THEN {} ELSE
            Must("C12.index", p.i = s.i)
            \cup Must("C12.image", (s.i + 1) \in {p.img[k] : k \in 1..Len(p.img)})
            \cup Must("C12.title", /\ p.parsed /\ p.name /\ p.unit /\ p.coord
                                   /\ p.value = cfg.text[s.i + 1])
            \cup Must("C12.half", p.half = Half(cfg.axis, s.n, s.i))
            \cup Must("C12.markers",
                      /\ ~p.strange
                      /\ Len(p.marks) = Cardinality(Shown(cfg.vals, cfg.c, s.i))
                      /\ {p.marks[k] : k \in 1..Len(p.marks)}
                            = Shown(cfg.vals, cfg.c, s.i)))]

VARIABLES l, st
TraceInit == l = 1 /\ st = None
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
