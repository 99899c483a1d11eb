----------------------------- MODULE T_Eclipse -----------------------------
(* One record per ring system drawn from a point of a grid.  r.d: the disk    *)
(* (dx, dy, R, ci, c, s); r.rings: their radii ri, ro, transmission t and the *)
(* places cross (from left to right) where the drawn contours meet the path,  *)
(* with slopes |sin|; r.seen: <<x, patches, transmission>> at places on the   *)
(* path; r.pred: slopes that the grid predicts at places.  All lengths are in *)
(* eclipse durations, as BigNums of Geometry.                                 *)
EXTENDS Geometry, TraceKit

\* A: along the path the levels, times ci^2, grow by A x^2
A(d) == Add(F3(FSqr(d.c), d.ci, d.ci), FSqr(d.s))
EdgeAt(d, rad) == FMul(FSqr(rad), FSqr(d.ci))
TolOf(lev) == Add(Tiny(20000), FMul(lev, Nano(200)))       \* 2 10^-5
\* an edge: its level, A times the square of half its chord, and a tolerance
EdgeOf(d, a, base, rad) ==
    LET lev == EdgeAt(d, rad)
        w == Add(Sub(lev, base), FMul(a, FMul(Half, Half)))
        tol == TolOf(lev)
    IN [rad |-> rad, lev |-> lev, w |-> w, tol |-> tol,
        meets |-> IF Less(tol, w) THEN "yes" ELSE IF Less(w, Neg(tol)) THEN "no" ELSE "unsure"]
\* everything about a record that is needed more than once
Prepare(r) ==
    LET d == r.d
        a == A(d)
        base == EdgeAt(d, d.R)
    IN [a |-> a, base |-> base, slack |-> FMul(base, Milli(1)),
        edges |-> TLCEval([k \in 1..Len(r.rings) |->
            LET o == EdgeOf(d, a, base, r.rings[k].ro)
                i == EdgeOf(d, a, base, r.rings[k].ri)
            IN [o |-> o, i |-> i,
                \* those that meet the path, outer edge first
                meet |-> SelectSeq(<<o, i>>, LAMBDA e : e.meets = "yes"),
                sure |-> "unsure" \notin {o.meets, i.meets}]]),
        levels |-> TLCEval([k \in 1..Len(r.seen) |->
            Add(base, FMul(a, Sub(FSqr(r.seen[k].x), FMul(Half, Half))))])]

Mate(g, k) == Len(g.cross) + 1 - k
Hits(p, e, x) == Within(FMul(p.a, FSqr(x)), e.w, e.tol)
EndsOk(r, p, n) == LET m == p.edges[n].meet
                       g == r.rings[n] IN
    \A k \in 1..Len(m) : Eq(m[k].rad, r.d.R) =>
        /\ Hits(p, m[k], g.cross[k].x) /\ Hits(p, m[k], g.cross[Mate(g, k)].x)
        /\ Less(g.cross[k].x, Zero) /\ Less(Zero, g.cross[Mate(g, k)].x)
ChordOk(r, p, n) == LET m == p.edges[n].meet
                        g == r.rings[n] IN
    \A k \in 1..Len(m) : Hits(p, m[k], g.cross[k].x)
                         /\ Hits(p, m[k], g.cross[Mate(g, k)].x)
SymmetricOk(r, p, n) == LET m == p.edges[n].meet
                            g == r.rings[n] IN
    \A k \in 1..Len(m) :
        LET x == g.cross[k].x
            y == g.cross[Mate(g, k)].x
        IN Within(F3(p.a, Add(x, y), Sub(y, x)), Zero, Twice(m[k].tol)) /\ Leq(x, y)

\* the slope at a place of the path as the grid predicts it
SlopesOk(r, p, n) == LET m == p.edges[n].meet
                         g == r.rings[n] IN
    \A k \in 1..Len(g.cross) :
        LET q == g.cross[k]
            e == m[IF k <= Len(m) THEN k ELSE Mate(g, k)]
            near == {i \in 1..Len(r.pred) : Within(r.pred[i].x, q.x, Milli(1))}
        IN near # {} =>
            LET w == FMul(p.a, FSqr(q.x))
                tol == Add(FMul(Milli(2), w), FMul(e.tol, FInt(10)))
            IN \A i \in near : Within(FMul(q.g, w), FMul(r.pred[i].g, w), tol)

\* the star at level v: surely behind a ring between two edges, or surely not
Behind(p, lo, hi, v) == Less(Add(lo, p.slack), v) /\ Less(v, Sub(hi, p.slack))
Beside(p, lo, hi, v) == Less(v, Sub(lo, p.slack)) \/ Less(Add(hi, p.slack), v)
SeenOk(r, p, i) ==
    LET N == 1..Len(r.rings)
        q == r.seen[i]
        v == p.levels[i]
    IN /\ \A k \in N : Behind(p, p.edges[k].i.lev, p.edges[k].o.lev, v) =>
              q.on = <<k>> /\ q.t = r.rings[k].t
       /\ (\A k \in N : Beside(p, p.edges[k].i.lev, p.edges[k].o.lev, v)) => q.on = <<>>
\* the disk of the grid itself is in front of the star during the eclipse only
EclipseOk(r, p, i) ==
    LET q == r.seen[i]
        v == p.levels[i]
        during == Less(AbsB(q.x), Half)
    IN r.whole =>
        /\ (Behind(p, Zero, p.base, v) /\ during
            /\ \A k \in 1..Len(r.rings) : Behind(p, p.edges[k].i.lev, p.edges[k].o.lev, v)
                   \/ Beside(p, p.edges[k].i.lev, p.edges[k].o.lev, v)) => q.on # <<>>
        /\ (Less(Add(p.base, p.slack), v) /\ ~during) => q.on = <<>>

Judge(r, st) == [st |-> st, fails |->
    IF r.res # "ok" THEN {"C31.drawn"}
    ELSE LET p == TLCEval(Prepare(r))
             N == 1..Len(r.rings)
             good == {k \in N : p.edges[k].sure}
             fine == {k \in good : Len(r.rings[k].cross) = 2 * Len(p.edges[k].meet)}
         IN Must("C31.angles", Unit(r.d.c, r.d.s))
            \cup Must("C31.drawn", Len(r.rings) = r.count)
            \cup Must("C31.meets", fine = good)
            \cup Must("C31.ends", \A k \in fine : EndsOk(r, p, k))
            \cup Must("C31.chords", \A k \in fine : ChordOk(r, p, k))
            \cup Must("C31.symmetric", \A k \in fine : SymmetricOk(r, p, k))
            \cup Must("C31.slopes", \A k \in fine : SlopesOk(r, p, k))
            \cup Must("C31.seen", \A i \in 1..Len(r.seen) : SeenOk(r, p, i))
            \cup Must("C31.eclipse", \A i \in 1..Len(r.seen) : EclipseOk(r, p, i))]

VARIABLES l, st
TraceInit == l = 1 /\ st = 0
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
