---------------------------- MODULE MC_Eclipse ----------------------------
(* The star passes behind every small ring system whose outermost edge meets  *)
(* the path at -H and H; and the ways to obtain such a system from a grid.    *)
EXTENDS Eclipse, TLC, Json
CONSTANTS H, Span
VARIABLES f, c, hs, t, seen, cfg
Forms == {g \in [a : 1..4, b : -3..3, d : 1..4] : g.a * g.d > g.b * g.b}
Centres == (-4..4) \X (-4..4)
Halves == {<<H>>, <<1, H>>, <<2, 3, H>>, <<H - 1, H>>}   \* chords of the edges, halved
Sources == {"maps", "point", "closest", "solutions"}
Lives == {"built", "extended", "loaded", "resumed"}
Makes == {"constructed", "added", "split", "replaced"}
Edge(g, m, h) == Level(g, m, h)
Edges == [k \in 1..Len(hs) |-> Level(f, c, hs[k])]
NoCfg == [source |-> "-"]
Init == /\ t = -Span /\ seen = <<>>
        /\ \/ /\ cfg = NoCfg /\ f \in Forms /\ c \in Centres /\ hs \in Halves
              /\ Eclipses(f, c, Level(f, c, H), H)
           \/ /\ f = [a |-> 1, b |-> 0, d |-> 1] /\ c = <<0, 0>> /\ hs = <<H>>
              /\ cfg \in [source : Sources, life : Lives, make : Makes, inner : SUBSET {1, 2, 3},
                          wide : BOOLEAN]
              /\ PrintT("EDGE " \o ToJson(cfg))
See(x) == IF OnEdge(f, c, Edges, x) THEN -1 ELSE Shown(f, c, Edges, x)
Next == /\ cfg = NoCfg /\ t < Span /\ t' = t + 1
        /\ seen' = Append(seen, See(t)) /\ UNCHANGED <<f, c, hs, cfg>>
Spec == Init /\ [][Next]_<<f, c, hs, t, seen, cfg>>

Sq(n) == n * n
Inv ==
    \* covered during the eclipse and never else
    /\ (Shown(f, c, Edges, t) # 0) = (t > -H /\ t < H)
    \* the same on both sides of mid-eclipse: the centre lies on the diameter
    \* that is conjugate to the path
    /\ f.a * c[1] + f.b * c[2] = 0
    /\ \A x \in 0..Span : See(x) = See(-x)
    \* the chord law
    /\ \A k \in 1..Len(hs) : \A j \in 1..Len(hs) :
          Edges[k] - Edges[j] = f.a * (Sq(hs[k]) - Sq(hs[j]))
    \* across the edges: antisymmetric along the path, along it in the middle
    /\ \A x \in 0..Span : Normal(f, c, x)[1] = f.a * x
                          /\ Normal(f, c, -x)[1] = -Normal(f, c, x)[1]
    \* towards the middle the rings get smaller
    /\ \A i \in 1..Len(seen) : \A j \in i..Len(seen) :
          (seen[i] > 0 /\ seen[j] > 0 /\ j - Span <= 0) => seen[j] <= seen[i]
\* it begins once and ends once
Once == t = Span =>
    \A i \in 1..Len(seen) : \A j \in i..Len(seen) : \A k \in j..Len(seen) :
        (seen[i] > 0 /\ seen[k] > 0) => seen[j] # 0
=============================================================================
