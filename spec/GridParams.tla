----------------------------- MODULE GridParams -----------------------------
(* The axes of a grid.  Values are whole units; tol is the tolerance in units *)
(* (0 when all values are exact).                                             *)
EXTENDS Naturals, Integers, Sequences

Within(a, b, t) == a - b <= t /\ b - a <= t

\* n evenly spaced values from a to b
Even(s, a, b, n, tol) ==
    /\ Len(s) = n
    /\ n = 1 => Within(s[1], a, tol)
    /\ n > 1 => \A k \in 1..n :
          Within((s[k] - a) * (n - 1), (k - 1) * (b - a), tol * (n - 1))

Same(s, t, tol) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Within(s[k], t[k], tol)

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
DownUp(s) == Reverse(s) \o Tail(s)
Mirrored(s) == [k \in 1..(2 * Len(s) - 1) |->
                  IF k < Len(s) THEN -s[Len(s) + 1 - k] ELSE s[k + 1 - Len(s)]]

Extendable(dx, dy) == dx[1] = 0 /\ dy[1] = 0
\* a single value has no mirror image: extending it is rejected
CanExtend(dx, dy) == Extendable(dx, dy) /\ Len(dx) > 1 /\ Len(dy) > 1

ValidArgs(a) ==
    /\ a.wf
    /\ a.min_x < a.max_x /\ a.num_x >= 1
    /\ a.min_y < a.max_y /\ a.num_y >= 1
    /\ a.max_rf >= a.one /\ a.num_rf >= 1
=============================================================================
