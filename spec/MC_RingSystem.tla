--------------------------- MODULE MC_RingSystem ----------------------------
(* All edits of all small ring systems.                                       *)
EXTENDS RingSystem, TLC, Json
CONSTANTS MaxR, Ts, Unit    \* radii are 1..MaxR times Unit

VARIABLE s
Rings == {r \in [i : 1..MaxR, o : 1..MaxR, t : Ts] : r.i < r.o}
RU == {[i |-> Unit * r.i, o |-> Unit * r.o, t |-> r.t] : r \in Rings}

OnGrid(l) == \A k \in 1..Len(l) : l[k].i % Unit = 0 /\ l[k].o % Unit = 0

E(op, k, r, d, tol2, ok, post) ==
    PrintT("EDGE " \o ToJson([pre |-> s, op |-> op, k |-> k, r |-> r, d |-> d,
                              tol2 |-> tol2, ok |-> ok]))
NoR == [i |-> 0, o |-> 0, t |-> 0]

Add == \E k \in -1..Len(s) + 1, r \in RU :
          /\ s' = IF CanAdd(s, k, r) THEN Added(s, k, r) ELSE s
          /\ E("add", k, r, <<>>, 0, CanAdd(s, k, r), s')
Replace == \E k \in -1..Len(s), r \in RU :
          /\ s' = IF CanReplace(s, k, r) THEN Replaced(s, k, r) ELSE s
          /\ E("replace", k, r, <<>>, 0, CanReplace(s, k, r), s')
Remove == \E k \in -1..Len(s) :
          /\ s' = IF CanRemove(s, k) THEN Removed(s, k) ELSE s
          /\ E("remove", k, NoR, <<>>, 0, CanRemove(s, k), s')
SplitA == \E d \in UNION {[1..n -> 0..3] : n \in {Len(s)}} :
          /\ Divisible(s, [k \in 1..Len(d) |-> IF d[k] = 0 THEN 1 ELSE d[k]])
          /\ s' = IF CanSplit(s, d) THEN Split(s, d) ELSE s
          /\ E("split", 0, NoR, d, 0, CanSplit(s, d), s')
MergeA == \E tol2 \in {1, Unit, 2 * Unit, 2 * Unit + 1, 4 * Unit + 1} :
          /\ s # <<>>
          /\ s' = Merge(s, tol2)
          /\ E("merge", 0, NoR, <<>>, tol2, TRUE, s')

Init == s = <<>>
Next == Add \/ Replace \/ Remove \/ SplitA \/ MergeA
Spec == Init /\ [][Next]_s

\* splits may leave the grid of radii; explore from grid states only
Small == OnGrid(s)

TypeOK == Ordered(s)
SplitThm ==
    \A n \in 1..3 :
      LET d == Uniform(s, n) p == Split(s, d) IN
      Divisible(s, d) =>
        /\ Ordered(p) /\ Len(p) = n * Len(s)
        /\ \A x \in 0..(MaxR + 1) * Unit : Profile(p, x) = Profile(s, x)
        /\ s # <<>> => \A tol2 \in {1, 3} : Merge(p, tol2) = Merge(s, tol2)
MergeThm ==
    s # <<>> => \A tol2 \in {1, Unit, 2 * Unit, 2 * Unit + 1, 4 * Unit + 1} :
      LET m == Merge(s, tol2) IN
        /\ Ordered(m) /\ Len(m) <= Len(s) /\ m # <<>>
        /\ Merge(m, tol2) = m
        /\ \A k \in 2..Len(m) : ~Joins(m[k - 1], m[k], tol2)
        /\ \A x \in 0..(MaxR + 1) * Unit :
              ~InClosedGap(s, tol2, x) => Profile(m, x) = Profile(s, x)
        /\ m[1].i = s[1].i /\ m[Len(m)].o = s[Len(s)].o
=============================================================================
