------------------------------ MODULE Eclipse ------------------------------
(* What is seen while a ring system passes in front of the star: relative to  *)
(* the rings the star moves along the path y = 0.  The edges of the rings are *)
(* levels of a quadratic form f = [a, b, d] around the centre c.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Level(f, c, t) == LET x == t - c[1]
                      y == -c[2]
                  IN f.a * x * x + 2 * f.b * x * y + f.d * y * y
\* across the edge through (t, 0)
Normal(f, c, t) == LET x == t - c[1]
                       y == -c[2]
                   IN << f.a * x + f.b * y, f.b * x + f.d * y >>
\* the ring in front of the star: ring k is between edges k - 1 and k (ring 1
\* is filled), 0 is none of them
Shown(f, c, edges, t) ==
    LET in == {k \in 1..Len(edges) : Level(f, c, t) < edges[k]}
    IN IF in = {} THEN 0 ELSE CHOOSE k \in in : \A j \in in : k <= j
OnEdge(f, c, edges, t) == \E k \in 1..Len(edges) : Level(f, c, t) = edges[k]

\* an eclipse from -h to h: the outermost edge passes through both ends
Eclipses(f, c, k, h) == Level(f, c, h) = k /\ Level(f, c, -h) = k
=============================================================================
