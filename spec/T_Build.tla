------------------------------ MODULE T_Build ------------------------------
(* Recorded builds and loads: grids, caller's objects, files and the folder   *)
(* of checkpoints as digests; "curve" records with BigNums (3 fraction limbs, *)
(* NaN as the empty sequence) for the diagnostics of one centre.              *)
EXTENDS Build, TraceKit, BigNum

F == 3
FMul(a, b) == Trim(Norm(Drop(Mul(a, b), F)))
Num(v) == v # <<>>
Near(a, b, tol) == Close(a, b, tol)
Tiny(a) == Add(<<2000>>, Drop(Shift(AbsB(a), 1), F))        \* 2 10^-9 + 10^-8 |a|

NumAt(r) == {k \in 1..Len(r.R) : Num(r.R[k])}
\* the smallest radius of the curve is at m, and the slice rf = 1 is that one
MinOk(r) == /\ Num(r.R[r.m])
            /\ \A k \in NumAt(r) : Leq(r.R[r.m], r.R[k])
            /\ LET c == (Len(r.rf) + 1) \div 2
               IN Near(r.fy[r.m], r.gfy[c], Tiny(r.gfy[c]))
                  /\ Near(r.R[r.m], r.gR[c], Tiny(r.gR[c]))
\* complete: on both sides the curve reaches the largest rf
Reaches(r) == /\ Num(r.R[1]) => Leq(FMul(r.rf[1], r.R[r.m]), Add(r.R[1], Tiny(r.R[1])))
              /\ LET n == Len(r.R) IN Num(r.R[n]) /\
                 Leq(FMul(r.rf[Len(r.rf)], r.R[r.m]), Add(r.R[n], Tiny(r.R[n])))
\* hint j: fy of the grid is interpolated between the points j and j + 1
Between(r, k) ==
    LET j == r.hint[k]
        want == FMul(r.rf[k], r.R[r.m])
        a == r.R[j]   b == r.R[j + 1]
        fa == r.fy[j] fb == r.fy[j + 1]
        right == Add(FMul(fa, Sub(b, want)), FMul(fb, Sub(want, a)))
        left == FMul(r.gfy[k], Sub(b, a))
    IN IF ~Num(r.gfy[k]) THEN TRUE
       ELSE /\ j \in 1..(Len(r.R) - 1) /\ Num(a) /\ Num(b) /\ Num(fa) /\ Num(fb)
            /\ \/ Leq(a, Add(want, Tiny(want))) /\ Leq(want, Add(b, Tiny(want)))
               \/ Leq(b, Add(want, Tiny(want))) /\ Leq(want, Add(a, Tiny(want)))
            /\ Near(left, right, Tiny(right))
Side(r, k) == LET c == (Len(r.rf) + 1) \div 2 IN
    Num(r.gfy[k]) => (IF k < c THEN r.hint[k] < r.m ELSE IF k > c THEN r.hint[k] >= r.m ELSE TRUE)

Judge(r, st) ==
    CASE r.op = "init" -> [st |-> [grids |-> <<>>, temp |-> r.temp, diags |-> <<>>], fails |-> {}]
      \* built as the only grid of a process of its own
      [] r.op = "alone" ->
           [st |-> [st EXCEPT !.grids = Remember(@, r.key, r.out.grid),
                              !.diags = Remember(@, r.key, r.out.diag)],
            fails |-> Must("C16.built", r.res = "ok")]
      [] r.op = "build" ->
           [st |-> IF r.res = "ok"
                   THEN [st EXCEPT !.grids = Remember(@, r.key, r.out.grid),
                                   !.diags = IF r.kd THEN Remember(@, r.key, r.out.diag) ELSE @]
                   ELSE st,
            fails |-> Must("C16.built", r.res = "ok")
                \cup Must("C16.same_grid", r.res = "ok" => SameGrid(st.grids, r.key, r.out.grid))
                \cup Must("C16.diagnostics", r.res = "ok" =>
                          IF r.kd THEN r.out.diag # "none" /\ SameGrid(st.diags, r.key, r.out.diag)
                          ELSE r.out.diag = "none")
                \cup Must("C16.caller", r.post.caller = r.pre.caller)
                \cup Must("C16.files", r.post.files = r.pre.files)
                \cup Must("C16.temp", r.res = "ok" =>
                          r.post.temp = AfterTemp(r.pre.temp, [saving |-> r.is], TRUE))]
      [] r.op = "load" ->
           [st |-> st, fails |->
                Must("C16.same_grid", r.res = "ok" => SameGrid(st.grids, r.key, r.out.grid))
                \cup Must("C16.caller", r.post.caller = r.pre.caller)
                \cup Must("C16.files", r.post.files = r.pre.files)
                \cup Must("C16.temp", r.post.temp = r.pre.temp)]
      [] r.op = "bad" ->
           [st |-> st, fails |->
                Must("C16.caller", r.post.caller = r.pre.caller)
                \cup Must("C16.files", r.post.files = r.pre.files)
                \cup Must("C16.temp", r.is \/ r.post.temp = r.pre.temp)]
      \* a grid that was built before and not touched since
      [] r.op = "again" ->
           [st |-> st, fails |-> Must("C16.kept", SameGrid(st.grids, r.key, r.out.grid))]
      [] r.op = "curves" ->
           [st |-> st, fails |-> Must("C16.every_centre", r.have = r.want)]
      [] r.op = "curve" ->
           [st |-> st, fails |->
                Must("C16.smallest", MinOk(r)) \cup Must("C16.complete", Reaches(r))
                \cup Must("C16.interpolated", \A k \in 1..Len(r.rf) : Between(r, k) /\ Side(r, k))]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
