---------------------------- MODULE MC_Geometry ----------------------------
(* Rational members of the family of ellipses through both ends, and the      *)
(* configurations of grids that are then built with the code.                 *)
EXTENDS Geometry, TLC, Json
VARIABLES member, px, flip, cfg

\* units of 10^-12: dy, fx, fy with (1/2)^2/fx^2 + dy^2/fy^2 = 1/4 + dy^2
N(int, a, b, c) == <<c, b, a, int>>
Members == { [dy |-> N(0, 3750, 0, 0), fx |-> One, fy |-> One],
             [dy |-> N(0, 3750, 0, 0), fx |-> N(1, 3333, 3333, 3333), fy |-> N(0, 7500, 0, 0)],
             [dy |-> N(0, 3750, 0, 0), fx |-> N(2, 800, 0, 0), fy |-> N(0, 6500, 0, 0)],
             [dy |-> N(0, 3750, 0, 0), fx |-> N(0, 8666, 6666, 6667), fy |-> N(1, 5600, 0, 0)],
             [dy |-> N(1, 2000, 0, 0), fx |-> N(0, 6410, 2564, 1026), fy |-> N(1, 1538, 4615, 3846)],
             [dy |-> N(1, 2000, 0, 0), fx |-> N(1, 0, 0, 0), fy |-> One],
             [dy |-> Zero, fx |-> One, fy |-> N(1, 5600, 0, 0)],
             [dy |-> Zero, fx |-> One, fy |-> N(3, 0, 0, 0)] }
Dx == {Zero, N(0, 2500, 0, 0), N(1, 1000, 0, 0)}
Configs == [mx : {1, 2, 3}, my : {1, 2, 3}, nx : {2, 3, 4}, ny : {2, 3, 4},
            sx : {"zero", "some", "negative", "symmetric"},
            sy : {"zero", "some", "negative", "symmetric"},
            rf : {15, 30, 60}, nr : {2, 3, 4}]
\* every third configuration, by a fixed rule
Taken(c) == (c.mx + 2 * c.my + 3 * c.nx + 5 * c.ny + c.rf + c.nr) % 5 = 0
NoCfg == [mx |-> 0]
Init == /\ \/ member \in Members /\ px \in Dx /\ flip = FALSE /\ cfg = NoCfg
              /\ (IsZero(member.dy) => IsZero(px))
           \/ member = [dy |-> Zero, fx |-> One, fy |-> One] /\ px = Zero /\ flip = FALSE
              /\ cfg \in {c \in Configs : Taken(c)}
              /\ PrintT("EDGE " \o ToJson(cfg))
\* mirroring in either axis
Next == /\ cfg = NoCfg /\ cfg' = cfg
        /\ \/ px' = Neg(px) /\ UNCHANGED <<member, flip>>
           \/ flip' = ~flip /\ member' = [member EXCEPT !.dy = Neg(@)] /\ px' = px
Spec == Init /\ [][Next]_<<member, px, flip, cfg>>
E == [dx |-> px, dy |-> member.dy, fx |-> member.fx, fy |-> member.fy]
Mirrored == [E EXCEPT !.dx = Neg(@)]

\* the sheared circle passes through both ends: P' M^-1 P = 1
OnForm(e, pos) ==
    LET m == ShearForm(e)
        x == RelX(e, pos)
        y == RelY(e)
        det == Sub(FMul(m[1], m[3]), FSqr(m[2]))
        value == Add(Sub(FMul(m[3], FSqr(x)), Twice(F3(m[2], x, y))), FMul(m[1], FSqr(y)))
    IN Within(FMul(value, FSqr(Q(e))), det, Tiny(1000))
\* the normal of the form at a point of the path, M^-1 P
FormNormal(e, pos) ==
    LET m == ShearForm(e)
        x == RelX(e, pos)
        y == RelY(e)
    IN << Sub(FMul(m[3], x), FMul(m[2], y)), Sub(FMul(m[1], y), FMul(m[2], x)) >>
Parallel(a, b) == Within(FMul(a[1], b[2]), FMul(a[2], b[1]), Tiny(1000))

\* the arithmetic itself
Samples == {-987654321, -10000, -1, 0, 1, 9999, 10000, 123456789}
ASSUME \A a, b \in Samples :
    /\ Eq(Mul(Add(OfInt(a), OfInt(b)), Sub(OfInt(a), OfInt(b))),
          Sub(Sqr(OfInt(a)), Sqr(OfInt(b))))
    /\ Leq(OfInt(a), OfInt(b)) <=> a <= b
    /\ Eq(Add(Neg(OfInt(a)), OfInt(a)), Zero)
    /\ Eq(Shift(OfInt(a), 2), Mul(OfInt(a), <<0, 0, 1>>))

Inv == cfg = NoCfg =>
    /\ StretchThroughEnds(E)
    /\ OnForm(E, Half) /\ OnForm(E, Neg(Half))
    \* mirror images: the form is the same but for the sign of the mixed entry
    /\ LET m == ShearForm(E)
           n == ShearForm(Mirrored)
       IN /\ Within(m[1], n[1], Tiny(10)) /\ Within(m[2], Neg(n[2]), Tiny(10))
          /\ Within(m[3], n[3], Tiny(10))
    \* slopes by the stretch factors agree with those of the form
    /\ \A pos \in {Half, Neg(Half), Zero, N(0, 1300, 0, 0), N(2, 0, 0, 0)} :
          /\ Parallel(FormNormal(E, pos), StretchNormal(E, pos))
          /\ \/ ~Determined(StretchNormal(E, pos), Tiny(100000))
             \/ ~IsSlope(Milli(1500), StretchNormal(E, pos), Nano(1))
    \* a disk is not smaller than itself, and some disk is smaller than a huge one
    /\ LET m == ShearForm(E)          \* trace >= larger eigenvalue >= trace / 2
           t == Add(m[1], m[3])
       IN IsZero(E.dy) \/ ~NotSmaller(E.dx, E.dy, E.fy, FMul(FInt(1000), Add(t, One)), 0)
          \/ Leq(FMul(FSqr(E.fy), Add(One, FMul(FInt(4), FSqr(E.dy)))), FMul(FInt(4), FSqr(E.dy)))
=============================================================================
