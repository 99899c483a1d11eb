------------------------------- MODULE Viewer -------------------------------
(* A property viewer: index 0..n-1 along its axis, frozen or not.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Start(n, i, frozen) == [n |-> n, i |-> IF i < 0 THEN n \div 2 ELSE i, frozen |-> frozen]

Scroll(s, up) ==
    IF s.frozen THEN s
    ELSE IF up THEN [s EXCEPT !.i = IF @ < s.n - 1 THEN @ + 1 ELSE @]
    ELSE [s EXCEPT !.i = IF @ > 0 THEN @ - 1 ELSE @]

\* which half of the radius axis a slice belongs to
Half(axis, n, i) ==
    IF axis # 2 THEN "none"
    ELSE IF i < n \div 2 THEN "horizontal"
    ELSE IF i > n \div 2 THEN "vertical" ELSE "none"

\* vals: slice values, c: coordinates along the axis, in units; a marker is
\* shown within a third of a step
Abs(v) == IF v < 0 THEN -v ELSE v
Shown(vals, c, i) ==
    {k \in 1..Len(c) : 3 * Abs(vals[i + 1] - c[k]) < Abs(vals[2] - vals[1])}
=============================================================================
