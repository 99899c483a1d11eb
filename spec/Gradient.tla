------------------------------ MODULE Gradient ------------------------------
(* A gradient: theoretical values d (NaN: -1) in units of 1/D, a measurement  *)
(* m (1/D) with orbital scale o (1/O) and transmission change t (1/T).        *)
(* The scaled gradient is the rational m*o/t.                                 *)
EXTENDS Naturals, Integers, Sequences

(* f is the side of m the measurement lies on, by less than a unit (-1, 0, 1). *)
NAN == -1
\* what is measured, in these units; none if negative
NoMeas == [m |-> -1, o |-> -1, t |-> -1, e |-> -1, f |-> 0]
D == 1024
O == 16
T == 64

\* scaled > 1, scaled > d/D   (t > 0; a zero t only with m*o > 0)
Above(x, n) == x.m * x.o * T > n \/ (x.m * x.o * T = n /\ n > 0 /\ x.f > 0)
TooLarge(x) == Above(x, D * O * x.t)
Shallower(d, x) == d = NAN \/ Above(x, d * O * x.t)
Mask(data, x) == [k \in 1..Len(data) |-> Shallower(data[k], x)]

\* the scaled gradient in units of 1/65536, times t
ScaledTimesT(x) == x.m * x.o * 256

Valid(x) == /\ x.m >= 0 /\ x.o >= 0 /\ x.t \in 0..T /\ x.e >= 0
            /\ ~TooLarge(x)
=============================================================================
