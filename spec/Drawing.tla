------------------------------ MODULE Drawing ------------------------------
(* What a drawn ring system shows at a point.  Lengths are integer units,     *)
(* angles are given by cosine and sine in units of 1/U.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

U == 4096
Far == 20000
Abs(n) == IF n < 0 THEN -n ELSE n
Div(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b      \* towards zero

\* coordinates along the major and the minor axis, the minor one de-projected
Along(g, x, y) == Div(x * g.ct + y * g.st, U)
Across(g, x, y) == Div(y * g.ct - x * g.st, U)
Deproject(g, v) == IF g.ci = 0 \/ Abs(v) * U >= Far * g.ci
                   THEN (IF v = 0 THEN 0 ELSE Far) ELSE Div(v * U, g.ci)
Squared(g, x, y) ==
    LET u == Along(g, x, y)
        w == Deproject(g, Across(g, x, y))
    IN u * u + w * w

\* a margin of m units, as seen in the de-projected plane
Margin(g, m) == IF g.ci = 0 \/ m * U >= Far * g.ci THEN Far ELSE (m * U) \div g.ci

Sq(n) == n * n
Pos(n) == IF n < 0 THEN 0 ELSE n
\* r.i < e < r.o with certainty, and the negation with certainty
InRing(r, e2, m) == r.i + m < r.o - m /\ Sq(r.i + m) < e2 /\ e2 < Sq(r.o - m)
OutRing(r, e2, m) == e2 < Sq(Pos(r.i - m)) \/ e2 > Sq(r.o + m)
\* outside of the rectangle around the outer ellipse, in the drawn plane
OffRing(g, r, x, y, m) == \/ Abs(Along(g, x, y)) > r.o + m
                          \/ Abs(Across(g, x, y)) > Div(r.o * g.ci, U) + m

\* what is shown at (x, y), relative to the centre: "planet", a ring's number,
\* 0 for nothing, or -1 too close to an edge to say
Shows(d, x, y, m) ==
    LET p2 == Sq(x) + Sq(y)
        e2 == Squared(d.g, x, y)
        me == Margin(d.g, m)
        off(k) == OutRing(d.rings[k], e2, me) \/ OffRing(d.g, d.rings[k], x, y, m)
        clear == \A k \in 1..Len(d.rings) :       \* not on the line of an edge
                    InRing(d.rings[k], e2, me) \/ off(k)
    IN IF p2 < Sq(Pos(d.planet - m)) THEN (IF clear THEN -2 ELSE -1)
       ELSE IF p2 <= Sq(d.planet + m) THEN -1
       ELSE IF \E k \in 1..Len(d.rings) : InRing(d.rings[k], e2, me)
       THEN CHOOSE k \in 1..Len(d.rings) : InRing(d.rings[k], e2, me)
       ELSE IF \A k \in 1..Len(d.rings) : off(k) THEN 0
       ELSE -1

\* the colour channel (0..255) of a layer of transmission t/1000 on white
Channel(col, t) == 255 - ((1000 - t) * (255 - col) + 500) \div 1000
=============================================================================
