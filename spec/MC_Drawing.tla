----------------------------- MODULE MC_Drawing -----------------------------
(* Small drawings: symmetric, exclusive, and with see-through holes.          *)
EXTENDS Drawing, TLC, Json
VARIABLES d, p
Geometries == {[ct |-> 4096, st |-> 0, ci |-> 4096, name |-> "face-on"],
               [ct |-> 4096, st |-> 0, ci |-> 2048, name |-> "inclined"],
               [ct |-> 0, st |-> 4096, ci |-> 2048, name |-> "upright"],
               [ct |-> 2896, st |-> 2896, ci |-> 1000, name |-> "oblique"],
               [ct |-> -3547, st |-> 2048, ci |-> 3000, name |-> "past 90"],
               [ct |-> 3547, st |-> -2048, ci |-> 2048, name |-> "negative"],
               [ct |-> 4096, st |-> 0, ci |-> 0, name |-> "edge-on"]}
Radii == {200, 500, 800, 1100, 1400}
Rings1 == {<<[i |-> a, o |-> b]>> : a \in Radii, b \in Radii}
Rings2 == {<<[i |-> a, o |-> b], [i |-> c, o |-> e]>> : a \in {200}, b \in {500, 800},
                                                    c \in {800, 1100}, e \in {1400}}
Drawings == [g : Geometries, planet : {0, 100, 300},
             rings : {r \in Rings1 \cup Rings2 : \A k \in 1..Len(r) : r[k].i < r[k].o}]
Grid == {200 * k : k \in -8..8}
Init == d \in Drawings /\ p \in Grid \X {0}
        /\ (p = <<0, 0>> => PrintT("EDGE " \o ToJson(d)))
Next == \E y \in Grid : p' = <<p[1], y>> /\ d' = d /\ p[2] = 0
Spec == Init /\ [][Next]_<<d, p>>
m == 20
Inv == LET s == Shows(d, p[1], p[2], m) IN
    \* point symmetry, and exclusiveness of what is shown
    /\ s = Shows(d, -p[1], -p[2], m)
    /\ Cardinality({k \in 1..Len(d.rings) :
          InRing(d.rings[k], Squared(d.g, p[1], p[2]), Margin(d.g, m))}) <= 1
    \* nothing beyond the outermost radius; the hole of the first ring is empty
    /\ Sq(p[1]) + Sq(p[2]) > Sq(d.rings[Len(d.rings)].o + 100) => s \in {0, -1}
    /\ (d.g.ci = 4096 /\ Sq(p[1]) + Sq(p[2]) < Sq(d.rings[1].i - 50))
          => s \in {0, -1, -2}
    \* white shows through a hole completely, and colour through no opaque ring
    /\ Channel(0, 1000) = 255 /\ Channel(77, 0) = 77
=============================================================================
