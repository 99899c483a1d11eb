------------------------------ MODULE Session ------------------------------
(* The bookkeeping of a shallot grid in use: eclipse parameters, gradients,   *)
(* gradient fit and masks.  A gradient is any record; what its fields are is  *)
(* left to the modules that use this one.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NAN == -1
NONE == -2

Start == [ecl |-> <<>>, grads |-> <<>>, fit |-> <<>>, hill |-> NONE]

HasEclipse(s) == s.ecl # <<>>
HasGradients(s) == s.grads # <<>>
HasFit(s) == s.fit # <<>>

\* the elements of a sequence at the positions that are not in gone
RECURSIVE Without(_, _, _)
Without(seq, gone, k) ==
    IF k > Len(seq) THEN <<>>
    ELSE (IF k \in gone THEN <<>> ELSE <<seq[k]>>) \o Without(seq, gone, k + 1)

SetEclipse(s, e) == [s EXCEPT !.ecl = <<e>>, !.grads = <<>>, !.fit = <<>>]
AddGradients(s, new) == [s EXCEPT !.grads = @ \o new,
                                  !.fit = IF new = <<>> THEN @ ELSE <<>>]
RemoveGradients(s, gone) == [s EXCEPT !.grads = Without(s.grads, gone, 1), !.fit = <<>>]
Rescaled(s, e, grads) == [s EXCEPT !.ecl = <<e>>, !.grads = grads, !.fit = <<>>]
Fitted(s, f) == [s EXCEPT !.fit = <<f>>]
SetHill(s, h) == [s EXCEPT !.hill = h]

(* ---- masks; radius and theo are sequences of ranks, NAN where undefined *)
HillMask(h, radius) == IF h = NONE THEN {}
    ELSE {p \in 1..Len(radius) : radius[p] = NAN \/ radius[p] > h}
SlopeMask(theo, scaled) == {p \in 1..Len(theo) : theo[p] = NAN \/ theo[p] < scaled}
Combined(h, radius, masks) ==
    HillMask(h, radius) \cup UNION {masks[k] : k \in 1..Len(masks)}

\* a read of data: hidden where masked
Shown(data, hidden) == [p \in 1..Len(data) |-> IF p \in hidden THEN NAN ELSE data[p]]

(* ---- solutions: the points in the order of their fit *)
Candidates(fit, comb) == {p \in 1..Len(fit) : p \notin comb /\ fit[p] # NAN}
=============================================================================
