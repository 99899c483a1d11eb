------------------------------- MODULE BigNum -------------------------------
(* Exact fixed-point arithmetic for TLC, whose integers have 32 bits.         *)
(* A number is a sequence of signed limbs in base 10^4, least significant     *)
(* first; the caller keeps track of how many limbs are the fraction.          *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

B == 10000

LOCAL Limb(v, k) == IF k \in 1..Len(v) THEN v[k] ELSE 0
LOCAL Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* carries from the limb k on, with carry c: all limbs 0..9999 but the last
RECURSIVE Carry(_, _, _, _)
LOCAL Carry(v, k, c, out) ==
    IF k > Len(v)
    THEN IF c \in -B..(B - 1) THEN Append(out, c)
         ELSE Carry(v, k + 1, c \div B, Append(out, c % B))
    ELSE Carry(v, k + 1, (v[k] + c) \div B, Append(out, (v[k] + c) % B))
Norm(v) == Carry(v, 1, 0, <<>>)

\* the sum of a[i] * b[k + 1 - i]
RECURSIVE Conv(_, _, _, _, _)
LOCAL Conv(a, b, k, i, sum) ==
    IF i > Len(a) \/ i > k THEN sum
    ELSE Conv(a, b, k, i + 1,
              IF k + 1 - i <= Len(b) THEN sum + a[i] * b[k + 1 - i] ELSE sum)

\* without leading limbs that carry nothing
RECURSIVE Trim(_)
Trim(v) == LET n == Len(v) IN
           IF n > 1 /\ v[n] = 0 THEN Trim(SubSeq(v, 1, n - 1))
           ELSE IF n > 1 /\ v[n] = -1
           THEN Trim(Append(SubSeq(v, 1, n - 2), v[n - 1] - B))
           ELSE v

Neg(v) == Trim(Norm([k \in 1..Len(v) |-> -v[k]]))
Add(a, b) == Trim(Norm([k \in 1..Longest(a, b) |-> Limb(a, k) + Limb(b, k)]))
Sub(a, b) == Trim(Norm([k \in 1..Longest(a, b) |-> Limb(a, k) - Limb(b, k)]))
Mul(a, b) == Trim(Norm([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1, 0)]))
Sqr(a) == Mul(a, a)
Shift(a, n) == [k \in 1..(Len(a) + n) |-> IF k <= n THEN 0 ELSE a[k - n]]
\* drops n limbs (rounding towards minus infinity)
Drop(a, n) == IF Len(a) <= n THEN (IF a[Len(a)] < 0 THEN <<-1>> ELSE <<0>>)
              ELSE SubSeq(a, n + 1, Len(a))
OfInt(n) == Trim(Norm(<<n>>))

Negative(v) == LET n == Norm(v) IN n[Len(n)] < 0
Leq(a, b) == ~Negative([k \in 1..Longest(a, b) |-> Limb(b, k) - Limb(a, k)])
Less(a, b) == ~Leq(b, a)
Eq(a, b) == Leq(a, b) /\ Leq(b, a)
AbsB(v) == IF Negative(v) THEN Norm(Neg(v)) ELSE v
Close(a, b, tol) == Leq(Sub(a, b), tol) /\ Leq(Sub(b, a), tol)
=============================================================================
