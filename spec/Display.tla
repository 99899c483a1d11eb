------------------------------ MODULE Display ------------------------------
(* A drawn slice of a grid property.  The data are sequences of whole numbers *)
(* (NAN where undefined) of a shape <<ny, nx, nr>>.  The radius axis is drawn *)
(* unrolled: from the largest radius down to 1 (the horizontal half) and up   *)
(* again, so that a place on it is a distance from its left end.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NAN == -1000000000

At(data, shape, y, x, r) == data[(y * shape[2] + x) * shape[3] + r + 1]

\* rows run upwards, columns to the right
RowAxis(axis) == IF axis = 0 THEN 2 ELSE 1
ColAxis(axis) == IF axis = 2 THEN 2 ELSE 3
Cell(data, shape, axis, index, i, j) ==
    CASE axis = 0 -> At(data, shape, index, i, j)
      [] axis = 1 -> At(data, shape, i, index, j)
      [] axis = 2 -> At(data, shape, i, j, index)
Slice(data, shape, axis, index) ==
    [i \in 1..shape[RowAxis(axis)] |-> [j \in 1..shape[ColAxis(axis)] |->
        Cell(data, shape, axis, index, i - 1, j - 1)]]
Labels == [rows |-> <<"$x$", "$y$", "$y$">>, cols |-> <<"$R_f$", "$R_f$", "$x$">>]

Abs(v) == IF v < 0 THEN -v ELSE v
\* what a place on the radius axis has to be labelled with
RadiusAt(place, one, range) == one + Abs(place - range)

(* ---- contrast: limits, colour map and number of colours                    *)
Defined(data) == {data[k] : k \in 1..Len(data)} \ {NAN}
Least(s) == CHOOSE v \in s : \A w \in s : v <= w
Most(s) == CHOOSE v \in s : \A w \in s : v >= w
\* an argument that is not given is <<>>
Contrast(data, a) ==
    LET d == Defined(data) IN
    [vmin |-> IF d = {} THEN NAN ELSE IF a.vmin = <<>> THEN Least(d) ELSE a.vmin[1],
     vmax |-> IF d = {} THEN NAN ELSE IF a.vmax = <<>> THEN Most(d) ELSE a.vmax[1],
     map |-> IF a.map = <<>> THEN "viridis" ELSE a.map[1],
     n |-> IF a.n = <<>> THEN 11 ELSE a.n[1]]

\* the colours (0..n-1) that a value may have: the n-th part of the limits in
\* which it lies, both neighbours where it lies on their border
Clamp(k, n) == IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k
Colours(v, c) ==
    IF c.vmin >= c.vmax THEN 0..(c.n - 1)
    ELSE LET p == (v - c.vmin) * c.n
             w == c.vmax - c.vmin
         IN {Clamp(p \div w, c.n)}
            \cup (IF p % w = 0 /\ v > c.vmin /\ v < c.vmax THEN {Clamp(p \div w - 1, c.n)} ELSE {})
=============================================================================
