----------------------------- MODULE T_Geometry -----------------------------
(* Recorded grids: op "grid" (shape, axes and maps as integers of 10^-5, NaN  *)
(* as -2000000000), "points", "centre", "quadrant" and "slope" records with   *)
(* BigNums (NaN as the empty sequence).                                       *)
EXTENDS Geometry, TraceKit

NaN == -2000000000
Num(n) == n # NaN
Deg == 100000
Near(a, b, t) == a - b <= t /\ b - a <= t
ModHalf(n) == n % (180 * Deg)
NearTilt(a, b, t) == LET d == ModHalf(a - b) IN d <= t \/ d >= 180 * Deg - t
Rel(a) == 2 + (IF a < 0 THEN -a ELSE a) \div 1000000
Same(a, b) == (Num(a) <=> Num(b)) /\ (Num(a) => Near(a, b, Rel(a)))

Ny(r) == r.shape[1]
Nx(r) == r.shape[2]
Nr(r) == r.shape[3]
Centre(r) == (Nr(r) + 1) \div 2
MapNames == {"radius", "inclination", "tilt", "fx", "fy"}
Points(r) == (1..Ny(r)) \X (1..Nx(r)) \X (1..Nr(r))
At(m, q) == m[q[1]][q[2]][q[3]]

\* the horizontal side of the origin, and dy = 0 elsewhere, have no ellipse
HasEllipse(r, q) == \/ ~r.dyzero[q[1]]
                    \/ r.dxzero[q[2]] /\ q[3] >= Centre(r)

Shapes(r) == \A n \in DOMAIN r.maps :
    /\ Len(r.maps[n]) = Ny(r)
    /\ \A i \in 1..Ny(r) : Len(r.maps[n][i]) = Nx(r)
                           /\ \A j \in 1..Nx(r) : Len(r.maps[n][i][j]) = Nr(r)
Together(r) == \A q \in Points(r) :
    \A n \in MapNames : Num(At(r.maps[n], q)) = Num(At(r.maps.radius, q))
Defined(r) == \A q \in Points(r) : Num(At(r.maps.radius, q)) = HasEllipse(r, q)
\* no other sampling defines what is no ellipse
OnlyWhere(r) == \A q \in Points(r) :
    Num(At(r.maps.radius, q)) => ~r.dyzero[q[1]] \/ r.dxzero[q[2]]
Ranges(r) == \A q \in Points(r) : Num(At(r.maps.radius, q)) =>
    /\ At(r.maps.inclination, q) \in 0..(90 * Deg)
    \* rounding shows where dy is almost 0
    /\ LET more == IF r.core THEN 0 ELSE 100 IN
       At(r.maps.tilt, q) \in (-180 * Deg - more)..(180 * Deg + more)
    /\ At(r.maps.radius, q) >= Deg \div 2 - 1
    /\ LET least == IF r.core THEN 1 ELSE 0 IN
       At(r.maps.fx, q) >= least /\ At(r.maps.fy, q) >= least

\* C14: the axes asked for, mirrored if both of them start at 0
Asked(v) == [k \in 1..(2 * Len(v) - 1) |->
    IF k <= Len(v) THEN -v[Len(v) + 1 - k] ELSE v[k - Len(v) + 1]]
Extended(r) == r.extended
AxesOk(have, want) == Len(have) = Len(want) /\ \A k \in 1..Len(have) : Near(have[k], want[k], 1)
Vectors(r) == IF Extended(r)
              THEN AxesOk(r.dx, Asked(r.wantx)) /\ AxesOk(r.dy, Asked(r.wanty))
              ELSE AxesOk(r.dx, r.wantx) /\ AxesOk(r.dy, r.wanty)
FlipX(r, q) == <<q[1], Nx(r) + 1 - q[2], q[3]>>
FlipY(r, q) == <<Ny(r) + 1 - q[1], q[2], q[3]>>
Mirror(r) == \A q \in Points(r) :
    LET a == FlipX(r, q)
        b == FlipY(r, q)
        c == FlipX(r, b)
    IN /\ \A n \in MapNames \ {"tilt"} :
             /\ Same(At(r.maps[n], q), At(r.maps[n], a))
             /\ Same(At(r.maps[n], q), At(r.maps[n], b))
             /\ Same(At(r.maps[n], q), At(r.maps[n], c))
       /\ LET t == At(r.maps.tilt, q) IN Num(t) =>
             /\ NearTilt(-t, At(r.maps.tilt, a), 3)
             /\ NearTilt(-t, At(r.maps.tilt, b), 3)
             /\ NearTilt(t, At(r.maps.tilt, c), 3)

\* C14: an extended grid (or a full one) against the quadrant built by itself,
\* where ay and ax of the one are 1 and 1 of the other
QuadrantOk(r) == \A i \in 1..Len(r.part.radius) : \A j \in 1..Len(r.part.radius[1]) :
    \A n \in MapNames :
        LET a == r.part[n][i][j]
            b == r.maps[n][i + r.ay][j + r.ax]
        IN /\ Len(a) = Len(b)
           /\ \A k \in 1..Len(a) :
                 IF n = "tilt" THEN Num(a[k]) = Num(b[k])
                                    /\ (Num(a[k]) => NearTilt(a[k], b[k], 3))
                 ELSE Same(a[k], b[k])

--------------------------------------------------------------------------
(* C15 *)
Big(s) == Len(s) > 0
\* positions of the defined entries of one side
Side(r, lo, hi) == {k \in lo..hi : Big(r.R[k])}
Ascending(v, ks, tol) == \A a, b \in ks : a < b => Leq(v[a], Add(v[b], tol))
Descending(v, ks, tol) == \A a, b \in ks : a < b => Leq(v[b], Add(v[a], tol))
Eps == Tiny(100)
\* fy is determined from fx by a difference that cancels where dy is tiny
Noise(r) == Add(Eps, r.noise)
Strictly(less, more) == Less(less, more)
Horizontal(r, m) ==
    LET ks == Side(r, 1, m) IN
    /\ ~r.core \/ Descending(r.R, ks, Eps)
    /\ (Descending(r.fx, ks, Eps) /\ Ascending(r.fy, ks, Noise(r)))
    /\ (r.core /\ 1 \in ks /\ m \in ks /\ Less(r.rf[m], r.rf[1])) =>
          Strictly(r.R[m], r.R[1]) /\ Strictly(r.fx[m], r.fx[1]) /\ Strictly(r.fy[1], r.fy[m])
Vertical(r, m, n) ==
    LET ks == Side(r, m, n)
        atOrigin == IsZero(r.dy) IN
    /\ ~r.core \/ Ascending(r.R, ks, Eps)
    /\ (Ascending(r.fy, ks, Noise(r)) /\ Descending(r.fx, ks, Eps))
    /\ (r.core /\ n \in ks /\ m \in ks /\ Less(r.rf[m], r.rf[n])) =>
          Strictly(r.R[m], r.R[n]) /\ Strictly(r.fy[m], r.fy[n])
          /\ (atOrigin \/ Strictly(r.fx[n], r.fx[m]))
RfOk(r, m) == \A k \in 1..Len(r.R) : (Big(r.R[k]) /\ Big(r.R[m])) =>
    LET want == FMul(r.rf[k], r.R[m]) IN Within(r.R[k], want, FMul(want, Milli(r.rftol)))
DiagOk(r, m) == \A k \in 1..Len(r.R) :
    /\ Big(r.diag[k]) = (Big(r.R[k]) /\ Big(r.R[m]))
    /\ Big(r.diag[k]) => Within(FMul(Add(r.diag[k], r.rf[k]), r.R[m]), r.R[k],
                                Add(Tiny(1000), FMul(r.R[k], Tiny(100))))
\* no further from the wanted disk than linear interpolation of the curve
CurveOk(r, m) == \A e \in 1..Len(r.curve) : Big(r.R[m]) =>
    LET c == r.curve[e] IN
    \* on both sides the curve is sampled up to the largest radius
    /\ \A k \in 1..2 :
          IF Big(c.ends[k])
          THEN Leq(FMul(r.rf[1], c.min), Add(c.ends[k], Add(Eps, FMul(c.min, Tiny(100)))))
          ELSE k = 1 /\ \A j \in 1..(m - 1) : ~Big(r.R[j])
    /\ Within(r.R[m], c.min, Add(Tiny(10), FMul(c.min, Tiny(100))))
    /\ \A k \in 1..Len(r.R) : Big(r.R[k]) =>
          LET want == FMul(r.rf[k], c.min) IN
          Within(r.R[k], want, Add(FMul(want, Nano(20)), FMul(c.miss[k], Add(One, Half))))
Smallest(r, m) == Big(r.R[m]) =>
    \A k \in 1..Len(r.w) : NotSmaller(r.dx, r.dy, r.w[k], FSqr(r.R[m]), r.mintol)

--------------------------------------------------------------------------
(* C21 *)
SlopeOk(r) == \A k \in 1..Len(r.pts) :
    LET e == r.pts[k]
        g == e.g
    IN IF ~Big(e.R) THEN ~Big(g)
       ELSE /\ Big(g) \/ e.vertical \/ ~Determined(DiskNormal(e, r.pos), r.least)
            /\ Big(g) =>
                 /\ Leq(Zero, g) /\ Leq(g, One)
                 /\ Determined(DiskNormal(e, r.pos), r.least) =>
                        IsSlope(g, DiskNormal(e, r.pos), Tiny(10000))
                 /\ Determined(StretchNormal(e, r.pos), r.least) =>
                        IsSlope(g, StretchNormal(e, r.pos), Tiny(10000))

Judge(r, st) == [st |-> st, fails |->
    CASE r.op = "grid" ->
             IF r.res # "ok" THEN Must("C13.built", ~r.core) \cup Must("C14.built", ~r.core)
                                  \cup Must("C15.built", ~r.core)
             ELSE IF ~Shapes(r) THEN {"C13.shapes", "C14.shapes"}
             ELSE Must("C13.defined_together", Together(r))
                  \cup Must("C13.defined", ~r.core \/ Defined(r))
                  \cup Must("C13.only_where", OnlyWhere(r))
                  \cup Must("C13.ranges", Ranges(r))
                  \cup Must("C14.vectors", Vectors(r))
                  \cup Must("C14.mirror", ~Extended(r) \/ Mirror(r))
                  \cup Must("C15.rf_array", r.rf = r.rfwant)
      [] r.op = "quadrant" -> Must("C14.quadrant", QuadrantOk(r))
      [] r.op = "points" ->
             Must("C13.angles", \A k \in 1..Len(r.pts) : Unit(r.pts[k].c, r.pts[k].s))
             \cup Must("C13.through_both_ends",
                       \A k \in 1..Len(r.pts) : ThroughBothEnds(r.pts[k]))
             \cup Must("C13.stretch_factors",
                       \A k \in 1..Len(r.pts) : /\ StretchThroughEnds(r.pts[k])
                                                /\ SameEllipse(r.pts[k]))
      [] r.op = "centre" ->
             LET m == (Len(r.R) + 1) \div 2 IN
             Must("C15.horizontal", Horizontal(r, m))
             \cup Must("C15.vertical", Vertical(r, m, Len(r.R)))
             \cup Must("C15.rf", ~r.core \/ RfOk(r, m))
             \cup Must("C15.interpolated", CurveOk(r, m))
             \cup Must("C15.diagnostic", DiagOk(r, m))
             \cup Must("C15.smallest", Smallest(r, m))
      [] r.op = "slope" -> Must("C21.slope", SlopeOk(r))
      [] r.op = "slopes" ->
             Must("C21.positions", r.res = "ok" /\ r.positions = r.wanted)
             \cup Must("C21.independent", r.same)
             \cup Must("C21.defined", r.undefined_ok)]

VARIABLES l, st
TraceInit == l = 1 /\ st = 0
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
