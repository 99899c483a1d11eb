---------------------------- MODULE Diagnostics ----------------------------
(* Diagnostics: a partial map from the points of the built quadrant to pairs  *)
(* of arrays (identified by positive numbers, 0: nothing stored).             *)
EXTENDS Naturals, Integers, Sequences

Abs(n) == IF n < 0 THEN -n ELSE n

Empty(ny, nx) == [ny |-> ny, nx |-> nx, ext |-> FALSE,
                  map |-> [y \in 1..ny |-> [x \in 1..nx |-> 0]]]

\* points count from 0; the store counts from 1
In(s, y, x) == y \in 0..(s.ny - 1) /\ x \in 0..(s.nx - 1)
InExtended(s, y, x) == y \in 0..(2 * (s.ny - 1)) /\ x \in 0..(2 * (s.nx - 1))
At(s, y, x) == IF In(s, y, x) THEN s.map[y + 1][x + 1] ELSE 0

\* what a read gives: the pair, or 0 if it fails
Read(s, y, x) ==
    IF ~s.ext THEN At(s, y, x)
    ELSE IF InExtended(s, y, x)
         THEN At(s, Abs(y - (s.ny - 1)), Abs(x - (s.nx - 1)))
         ELSE 0

\* the known finding: the mirror point is looked up one row and column off
OffByOne(s, y, x) ==
    IF s.ext /\ InExtended(s, y, x) THEN At(s, Abs(y - s.ny), Abs(x - s.nx))
    ELSE Read(s, y, x)

CanStore(s, y, x) == ~s.ext /\ In(s, y, x)
Store(s, y, x, v) == [s EXCEPT !.map[y + 1][x + 1] = v]
Extend(s) == [s EXCEPT !.ext = TRUE]
=============================================================================
