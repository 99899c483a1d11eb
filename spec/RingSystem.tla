----------------------------- MODULE RingSystem -----------------------------
(* A ring system: a list of rings [i, o, t] (inner and outer radius in fixed  *)
(* units, t a transmission token) that its edits keep ordered and disjoint.   *)
(* Edits are operators on lists; MC_RingSystem explores them, T_RingSystem    *)
(* uses the same operators to judge recorded calls.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ordered outwards, without overlap, touching allowed
Ordered(s) == /\ \A k \in 1..Len(s) : s[k].i < s[k].o
              /\ \A k \in 1..Len(s) - 1 : s[k].o <= s[k + 1].i

InsertAt(s, k, r) == SubSeq(s, 1, k) \o <<r>> \o SubSeq(s, k + 1, Len(s))
DeleteAt(s, k)    == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* indices are zero based, as in the code
FitsBetween(s, below, above, r) ==
    /\ below >= 1 => s[below].o <= r.i
    /\ above <= Len(s) => r.o <= s[above].i

CanAdd(s, k, r)     == k \in 0..Len(s) /\ FitsBetween(s, k, k + 1, r)
CanReplace(s, k, r) == k \in 0..Len(s) - 1 /\ FitsBetween(s, k, k + 2, r)
CanRemove(s, k)     == k \in 0..Len(s) - 1

Added(s, k, r)    == InsertAt(s, k, r)
Replaced(s, k, r) == [s EXCEPT ![k + 1] = r]
Removed(s, k)     == DeleteAt(s, k + 1)

----------------------------------------------------------------------------
\* n ringlets of equal width, from exactly the old inner to the old outer edge
Ringlets(r, n) ==
    LET whole == (r.o - r.i) \div n
        rest == (r.o - r.i) % n
        edge(j) == r.i + j * whole + (j * rest) \div n
    IN [j \in 1..n |-> [i |-> edge(j - 1), o |-> edge(j), t |-> r.t]]
Divisible(s, d) == \A k \in 1..Len(s) : (s[k].o - s[k].i) % d[k] = 0

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, d, k) == IF k > Len(s) THEN <<>>
                      ELSE Ringlets(s[k], d[k]) \o SplitFrom(s, d, k + 1)
Split(s, d) == SplitFrom(s, d, 1)
CanSplit(s, d) == Len(d) = Len(s) /\ \A k \in 1..Len(d) : d[k] >= 1
Uniform(s, n) == [k \in 1..Len(s) |-> n]

\* gap smaller than the tolerance; the tolerance is given doubled
Joins(a, b, tol2) == a.t = b.t /\ 2 * (b.i - a.o) < tol2

\* declarative: the maximal runs of joining neighbours
RunStarts(s, tol2) == {k \in 1..Len(s) : k = 1 \/ ~Joins(s[k - 1], s[k], tol2)}
RunEnd(s, tol2, k) ==
    SetMax({m \in k..Len(s) : \A j \in k + 1..m : Joins(s[j - 1], s[j], tol2)})
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SortedSeq(S \ {m})
Merge(s, tol2) ==
    LET starts == SortedSeq(RunStarts(s, tol2))
    IN [k \in 1..Len(starts) |->
          [i |-> s[starts[k]].i, o |-> s[RunEnd(s, tol2, starts[k])].o,
           t |-> s[starts[k]].t]]

----------------------------------------------------------------------------
\* the transmission in the cell between radius x and x + 1; -1: no ring
Profile(s, x) ==
    IF \E k \in 1..Len(s) : s[k].i <= x /\ x < s[k].o
    THEN s[CHOOSE k \in 1..Len(s) : s[k].i <= x /\ x < s[k].o].t ELSE -1
InClosedGap(s, tol2, x) ==
    \E k \in 2..Len(s) : Joins(s[k - 1], s[k], tol2) /\ s[k - 1].o <= x /\ x < s[k].i
=============================================================================
