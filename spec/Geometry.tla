------------------------------ MODULE Geometry ------------------------------
(* The ellipses of a shallot grid.  All real numbers are BigNums with F = 3   *)
(* fraction limbs (units of 10^-12); products are rounded to that.            *)
(*                                                                            *)
(* The disk of a grid point: centre (dx, dy), semi-major axis R, inclination  *)
(* (cosine ci) and tilt (cosine c, sine s).  Its stretch factors fx, fy: the  *)
(* circle of radius r = hypot(1/2, dy) stretched by fx and fy and sheared by  *)
(* -dx/dy.  The shear is the fraction p/q = dx/dy, 0/1 at the origin.         *)
EXTENDS Naturals, Integers, Sequences, BigNum

F == 3
FInt(n) == Shift(OfInt(n), F)
One == FInt(1)
Zero == <<0>>
Half == <<0, 0, 5000>>
FMul(a, b) == Trim(Norm(Drop(Mul(a, b), F)))
FSqr(a) == FMul(a, a)
F3(a, b, c) == FMul(FMul(a, b), c)
Twice(a) == Add(a, a)
Milli(n) == <<0, 0, n * 10>>             \* n / 1000
Nano(n) == <<0, n * 10>>                 \* n / 10^7 (n < 1000)
Tiny(n) == <<n>>                         \* n / 10^12
Within(a, b, tol) == Close(a, b, tol)

IsZero(a) == Eq(a, Zero)
P(e) == IF IsZero(e.dy) THEN Zero ELSE e.dx
Q(e) == IF IsZero(e.dy) THEN One ELSE e.dy

\* relative coordinates of a point of the path y = 0
RelX(e, pos) == Sub(pos, e.dx)
RelY(e) == Neg(e.dy)

--------------------------------------------------------------------------
(* The disk itself *)
Unit(c, s) == Within(Add(FSqr(c), FSqr(s)), One, Tiny(100))
AlongMajor(e, x, y) == Add(FMul(x, e.c), FMul(y, e.s))
AlongMinor(e, x, y) == Sub(FMul(y, e.c), FMul(x, e.s))
\* u^2 ci^2 + v^2 and R^2 ci^2
OnDisk(e, x, y) ==
    LET u == AlongMajor(e, x, y)
        v == AlongMinor(e, x, y)
        c2 == FSqr(e.ci)
        r2 == FSqr(e.R)
    IN Within(Add(FMul(FSqr(u), c2), FSqr(v)), FMul(r2, c2),
              Add(Tiny(5000), Drop(Mul(Nano(1), r2), F)))
ThroughBothEnds(e) == OnDisk(e, RelX(e, Half), RelY(e))
                      /\ OnDisk(e, RelX(e, Neg(Half)), RelY(e))

--------------------------------------------------------------------------
(* The stretched and sheared circle *)
R2(e) == Add(FSqr(Half), FSqr(e.dy))
\* (1/2)^2 fy^2 + dy^2 fx^2 = r^2 fx^2 fy^2
StretchThroughEnds(e) ==
    LET x2 == FSqr(e.fx)
        y2 == FSqr(e.fy)
        right == F3(R2(e), x2, y2)
    IN Within(Add(FMul(FSqr(Half), y2), FMul(FSqr(e.dy), x2)), right,
              Add(Tiny(5000), FMul(Nano(1), Add(right, x2))))
\* the form <<a, b, d>> = q^2 [[a, b], [b, d]] of x = q (fx r cos t - sh fy r sin t), ...
ShearForm(e) ==
    LET x2 == FSqr(e.fx)
        y2 == FSqr(e.fy)
        p == P(e)
        q == Q(e)
        r2 == R2(e)
    IN << FMul(r2, Add(FMul(x2, FSqr(q)), FMul(y2, FSqr(p)))),
          F3(r2, y2, FMul(p, q)),
          F3(r2, y2, FSqr(q)) >>
DiskForm(e) ==
    LET a2 == FSqr(e.R)
        b2 == FMul(a2, FSqr(e.ci))
        c2 == FSqr(e.c)
        s2 == FSqr(e.s)
        q2 == FSqr(Q(e))
    IN << FMul(q2, Add(FMul(a2, c2), FMul(b2, s2))),
          F3(q2, Sub(a2, b2), FMul(e.c, e.s)),
          FMul(q2, Add(FMul(a2, s2), FMul(b2, c2))) >>
SameEllipse(e) ==
    LET m == DiskForm(e)
        n == ShearForm(e)
        tol == Add(Tiny(20000), FMul(Nano(1), FMul(FSqr(e.R), Add(One, FSqr(Q(e))))))
    IN \A k \in 1..3 : Within(m[k], n[k], tol)

--------------------------------------------------------------------------
(* The smallest disk: no ellipse of the family, given by its fy = w, is       *)
(* smaller than R^2 (1 - tol): with lambda = R^2 (1 - tol), multiplied by     *)
(* den q^2 where fx^2 = w^2 / den: lambda^2 - T lambda + D <= 0 (between the  *)
(* eigenvalues) or lambda <= T / 2.                                           *)
NotSmaller(dx, dy, w, r2min, tolmilli) ==
    LET e == [dx |-> dx, dy |-> dy]
        w2 == FSqr(w)
        dy2 == FSqr(dy)
        den == Sub(FMul(w2, Add(One, FMul(FInt(4), dy2))), FMul(FInt(4), dy2))
        p2 == FSqr(P(e))
        q2 == FSqr(Q(e))
        rr == R2(e)
        lam == FMul(r2min, Milli(1000 - tolmilli))
        t == FMul(FMul(rr, w2), Add(q2, FMul(Add(p2, q2), den)))
        d == FMul(FSqr(rr), FMul(FSqr(w2), q2))
        left == Add(F3(lam, lam, FMul(den, q2)), d)
    IN \/ Leq(den, Milli(1))
       \/ Leq(Twice(F3(lam, den, q2)), t)
       \/ Leq(left, FMul(lam, t))

--------------------------------------------------------------------------
(* The slope |sin| of the ring edge through (pos, 0), in two ways: the normal *)
(* of the disk's ellipses there, and that of the sheared circle's.            *)
DiskNormal(e, pos) ==
    LET x == RelX(e, pos)
        y == RelY(e)
        u == FMul(AlongMajor(e, x, y), FSqr(e.ci))
        v == AlongMinor(e, x, y)
    IN << Sub(FMul(u, e.c), FMul(v, e.s)), Add(FMul(u, e.s), FMul(v, e.c)) >>
StretchNormal(e, pos) ==
    LET x2 == FSqr(e.fx)
        y2 == FSqr(e.fy)
        x == IF IsZero(e.dy) THEN RelX(e, pos) ELSE pos     \* x + shear * y
    IN << F3(x, y2, Q(e)),
          Neg(Add(F3(P(e), x, y2), F3(Q(e), x2, e.dy))) >>
\* g^2 (Nx^2 + Ny^2) = Nx^2
IsSlope(g, n, tol) ==
    LET nx2 == FSqr(n[1])
        n2 == Add(nx2, FSqr(n[2]))
    IN Within(FMul(FSqr(g), n2), nx2, Add(Tiny(100), FMul(n2, tol)))
Determined(n, least) == Leq(least, Add(FSqr(n[1]), FSqr(n[2])))
=============================================================================
