------------------------------ MODULE T_Drawing ------------------------------
(* One record per drawing: d (planet, rings with transmission t, geometry g), *)
(* col: the face colour, win: the window <<xlo, xhi, ylo, yhi>> and centre    *)
(* <<cx, cy>>, outer and two (the outermost radius and 2 R* in units), scale  *)
(* (pixels per unit in x and y), px: sampled pixels <<x, y, r, g, b>> with    *)
(* absolute coordinates, m: margin in units.                                  *)
EXTENDS Drawing, TraceKit

Near(a, b, t) == Abs(a - b) <= t
Colour(r, k, c) == IF k = 0 THEN 255
                   ELSE IF k = -2 THEN r.col[c]
                   ELSE Channel(r.col[c], r.d.rings[k].t)
Matches(r, q, k) == \A c \in 1..3 : Near(q[2 + c], Colour(r, k, c), 4)

BadPixels(r, kinds) ==
    {n \in 1..Len(r.px) :
        LET q == r.px[n]
            k == Shows(r.d, q[1] - r.cx, q[2] - r.cy, r.m)
        IN k # -1 /\ k \in kinds /\ ~Matches(r, q, k)}

(* A patch is described by its opacity (1e-8), colour (1e-6) and closed curves  *)
(* <<half extent along, across, centre along, centre across, off>>, in 1e-6 of *)
(* the outermost plus the planet radius; off: distance from an ellipse.        *)
Tol == 100
Curve(c, a, b) == /\ Near(c[1], a, Tol) /\ Near(c[2], b, Tol)
                  /\ Near(c[3], 0, Tol) /\ Near(c[4], 0, Tol) /\ c[5] <= 3 * Tol
Speck(c) == c[1] <= Tol /\ c[2] <= Tol
\* curve a, b is there, and nothing else than the curves in S (or specks)
Curves(p, S) ==
    LET have == {p.subs[n] : n \in 1..Len(p.subs)}
    IN /\ \A w \in S : (w[1] <= Tol /\ w[2] <= Tol) \/ (\E c \in have : Curve(c, w[1], w[2]))
       /\ \A c \in have : Speck(c) \/ (\E w \in S : Curve(c, w[1], w[2]))
SameColour(r, p) == p.seen /\ \A c \in 1..3 : Near(p.rgb[c], r.rgb[c], 100)
IsRing(r, p, w) == /\ Curves(p, {<<w.o, w.ob>>, <<w.i, w.ib>>})
                   /\ Near(p.alpha, w.alpha, 5) /\ SameColour(r, p)
IsPlanet(r, p) == /\ Curves(p, {<<r.sz[1], r.sz[1]>>})
                  /\ Near(p.alpha, 100000000, 5) /\ SameColour(r, p)
Parts(r) == {r.parts[n] : n \in 1..Len(r.parts)}

Judge(r, st) ==
    [st |-> st,
     fails |->
       Must("C06.angles", /\ Near(r.d.g.ct * r.d.g.ct + r.d.g.st * r.d.g.st, U * U, 3 * U)
                          /\ r.d.g.ci \in 0..U)
       \cup Must("C06.drawn", r.res = "ok")
       \cup (IF r.res # "ok" THEN {} ELSE
          Must("C06.window", /\ Near(r.win[1], r.cx - r.outer - r.two, 3)
                             /\ Near(r.win[2], r.cx + r.outer + r.two, 3)
                             /\ Near(r.win[3], r.cy - r.outer - r.two, 3)
                             /\ Near(r.win[4], r.cy + r.outer + r.two, 3))
          \cup Must("C06.equal_scale", Near(r.scale[1], r.scale[2], 2))
          \cup Must("C06.planet", BadPixels(r, {-2}) = {})
          \cup Must("C06.ring", BadPixels(r, 1..Len(r.d.rings)) = {})
          \cup Must("C06.see_through", BadPixels(r, {0}) = {})
          \cup Must("C06.one_patch_each", Len(r.parts) = Len(r.want) + 1)
          \cup Must("C06.planet_patch", \E p \in Parts(r) : IsPlanet(r, p))
          \cup Must("C06.ring_patch", \A n \in 1..Len(r.want) :
                                       \E p \in Parts(r) : IsRing(r, p, r.want[n]))
          \cup Must("C06.unchanged", r.same))]

VARIABLES l, st
TraceInit == l = 1 /\ st = 0
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
