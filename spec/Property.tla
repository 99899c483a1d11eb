------------------------------ MODULE Property ------------------------------
(* A grid property: data (ranks per cell, -1: NaN), mask (<<>>: none),        *)
(* contrast limits (ranks; NONE: unspecified).                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NAN == -1
NONE == -2

New(data) == [data |-> data, mask |-> <<>>, lo |-> NONE, hi |-> NONE]

Masked(data, mask) ==
    IF mask = <<>> THEN data
    ELSE [k \in 1..Len(data) |-> IF mask[k] THEN NAN ELSE data[k]]

Read(s, masked) == IF masked THEN Masked(s.data, s.mask) ELSE s.data

Numbers(data) == {data[k] : k \in 1..Len(data)} \ {NAN}
Smallest(data) == CHOOSE v \in Numbers(data) : \A w \in Numbers(data) : v <= w
Largest(data) == CHOOSE v \in Numbers(data) : \A w \in Numbers(data) : v >= w

\* limits: given values (NONE: not given); all-NaN data have no limits
Lo(s, given) == IF Numbers(s.data) = {} THEN NONE
                ELSE IF given = NONE THEN Smallest(s.data) ELSE given
Hi(s, given) == IF Numbers(s.data) = {} THEN NONE
                ELSE IF given = NONE THEN Largest(s.data) ELSE given

CanMask(s, mask, wf) == wf /\ Len(mask) = Len(s.data)
SetMask(s, mask) == [s EXCEPT !.mask = mask]
SetContrast(s, lo, hi) == [s EXCEPT !.lo = Lo(s, lo), !.hi = Hi(s, hi)]

\* ---- gradients: the scaled gradient hides everything shallower
Shallow(data, scaled) ==
    [k \in 1..Len(data) |-> data[k] = NAN \/ data[k] < scaled]
=============================================================================
