---------------------------- MODULE T_GridParams ----------------------------
(* r: [op, res, a (new), tol, post]; post: [dx, dy, rf, rfa, shape, slice,    *)
(* ext, vec (get_vectors agrees with the attributes), mid (a value that       *)
(* stands for 0 is exactly 0), zx, zy (the axis starts exactly at 0)].  *)
EXTENDS GridParams, TraceKit

None == [zx |-> FALSE, zy |-> FALSE, dx |-> <<>>, dy |-> <<>>, rf |-> <<>>, rfa |-> <<>>]

General(p, tol) ==
    Must("C07.shape", /\ p.shape = <<Len(p.dy), Len(p.dx), Len(p.rfa)>>
                      /\ p.slice = <<Len(p.dy), Len(p.dx)>>)
    \cup Must("C07.rf_array", p.rf # <<>> /\ Same(p.rfa, DownUp(p.rf), 0))
    \cup Must("C07.vectors", p.vec)
    \cup Must("C07.extendable", p.ext = (p.zx /\ p.zy))

SameGrid(p, q) == p.dx = q.dx /\ p.dy = q.dy /\ p.rf = q.rf /\ p.rfa = q.rfa
                  /\ p.bits = q.bits

Judge(r, st) ==
    LET p == r.post IN
    CASE r.op = "new" ->
       [st |-> IF r.res = "ok" THEN p ELSE st,
        fails |->
          Must("C07.valid_accepted", ValidArgs(r.a) => r.res = "ok")
          \cup Must("C07.invalid_rejected",
                    ~ValidArgs(r.a) => r.res \notin {"ok", "Timeout"})
          \cup (IF r.res # "ok" \/ ~ValidArgs(r.a) THEN {} ELSE
             General(p, r.tol)
             \cup Must("C07.starts", p.zx = r.a.zx /\ p.zy = r.a.zy)
             \cup Must("C07.dx", Even(p.dx, r.a.min_x, r.a.max_x, r.a.num_x, r.tol))
             \cup Must("C07.dy", Even(p.dy, r.a.min_y, r.a.max_y, r.a.num_y, r.tol))
             \cup Must("C07.rf", Even(p.rf, r.a.one, r.a.max_rf, r.a.num_rf, r.tol)))]
      [] r.op = "extend" ->
         LET can == st.zx /\ st.zy /\ Len(st.dx) > 1 /\ Len(st.dy) > 1 IN
         [st |-> p,
          fails |->
            Must("C07.extend_accepted", can => r.res = "ok")
            \cup Must("C07.extend_rejected", ~can => r.res \notin {"ok", "Timeout"})
            \cup Must("C07.rejected_unchanged",
                      ~can => SameGrid(p, st) /\ p.ext = st.ext
                              /\ p.shape = st.shape /\ p.slice = st.slice)
            \cup General(p, r.tol)
            \cup (IF ~can \/ r.res # "ok" THEN {} ELSE
                  Must("C07.mirror_dx", Same(p.dx, Mirrored(st.dx), r.tol) /\ p.mid)
                  \cup Must("C07.mirror_dy", Same(p.dy, Mirrored(st.dy), r.tol))
                  \cup Must("C07.rf_kept", p.rf = st.rf /\ p.rfa = st.rfa)
                  \cup Must("C07.once", ~p.ext))]
      [] r.op = "other" ->    \* another object was built or extended
         [st |-> st,
          fails |-> Must("C07.independent", SameGrid(p, st) /\ p.ext = st.ext)]

VARIABLES l, st
TraceInit == l = 1 /\ st = None
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
