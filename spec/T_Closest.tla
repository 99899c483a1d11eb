----------------------------- MODULE T_Closest -----------------------------
(* Recorded searches: base (maps and axes as BigNums with 3 fraction limbs,   *)
(* NaN as the empty sequence), then queries with their answers.               *)
EXTENDS Closest, TraceKit, BigNum

F == 3
FSqr(a) == LET n == Norm(a) IN Trim(Norm(Drop(Sqr(AbsB(n)), F)))
Num(v) == v # <<>>
Zero == <<0>>
Sign(v) == IF Less(Zero, v) THEN 1 ELSE IF Less(v, Zero) THEN -1 ELSE 0
FInt(n) == Shift(OfInt(n), F)

Row(base, p) == (p - 1) \div (base.shape[2] * base.shape[3])
Col(base, p) == ((p - 1) \div base.shape[3]) % base.shape[2]
Rf(base, p) == (p - 1) % base.shape[3]
Dy(base, p) == base.dy[Row(base, p) + 1]
D2(base, p, q) == Add(Add(FSqr(Sub(base.radius[p], q.R)), FSqr(Sub(base.inclination[p], q.i))),
                      Add(FSqr(Sub(base.tilt[p], q.t)), FSqr(Sub(Dy(base, p), q.b))))
\* 10^-8 + 10^-8 d2
Slack(d2) == Add(<<0, 1>>, Drop(Shift(d2, 1), F))

WellFormed(q) == q.wf /\ Num(q.R) /\ Num(q.i) /\ Num(q.t) /\ Num(q.b)
                 /\ Leq(Zero, q.R) /\ Leq(Zero, q.i) /\ Leq(q.i, FInt(90))
                 /\ Leq(FInt(-180), q.t) /\ Leq(q.t, FInt(180))
Points(base) == {p \in 1..Len(base.radius) : Num(base.radius[p])}
IndexOk(base, o) == Len(o.idx) = 3 /\ \A k \in 1..3 : o.idx[k] \in 0..(base.shape[k] - 1)
PointAt(base, o) == (o.idx[1] * base.shape[2] + o.idx[2]) * base.shape[3] + o.idx[3] + 1
Same(a, b) == Num(a) /\ Close(a, b, <<100>>)

Judge(r, st) ==
    IF r.op = "init" THEN [st |-> r.base, fails |-> {}]
    ELSE
    LET base == st
        q == r.q
        Side(p) == Sign(Dy(base, p))
        cand == Searched(Points(base), {r.hidden[k] : k \in 1..Len(r.hidden)}, q.masked)
        good == RightSide(cand, Side, Sign(q.b))
        p == PointAt(base, r.out)
        mine == D2(base, p, q)
        limit == Add(mine, Zero)
        Nf(a, b) == Leq(mine, LET d == D2(base, b, q) IN Add(d, Slack(d)))
    IN [st |-> base, fails |->
         Must("C24.unchanged", r.pre = r.post)
         \cup IF ~WellFormed(q) THEN Must("C24.rejected", r.res \notin {"ok", "Timeout"})
              ELSE IF good = {} THEN {}
              ELSE IF r.res # "ok" THEN {"C24.answered"}
              ELSE IF ~IndexOk(base, r.out) THEN {"C24.index"}
              ELSE Must("C24.coordinates",
                        /\ Same(r.out.coord[1], Dy(base, p))
                        /\ Same(r.out.coord[2], base.dx[Col(base, p) + 1])
                        /\ Same(r.out.coord[3], base.rf[Rf(base, p) + 1]))
                   \cup Must("C24.candidate", p \in cand)
                   \cup Must("C24.side", p \in cand => p \in good)
                   \cup Must("C24.distance", p \in good =>
                             Num(r.out.dist) /\ Leq(Zero, r.out.dist)
                             /\ Close(FSqr(r.out.dist), mine, Slack(mine)))
                   \cup Must("C24.nearest", p \in good => MayReport(p, cand, Side, Sign(q.b), Nf))]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
