-------------------------------- MODULE Ring --------------------------------
(* One ring: five parameters that may be assigned in any order.  Parameters   *)
(* are ranks in an exact order; K names the ranks of the constants that the   *)
(* bounds refer to: [zero, one, ninety, m180, p180, eps].                     *)
EXTENDS Naturals, Integers, Sequences

NAN  == -1
NINF == -2
PINF == 1000000000
BAD  == -9                \* something that is not a number

Fields == {"inner", "outer", "trans", "inc", "tilt"}
NoRing == [inner |-> BAD, outer |-> BAD, trans |-> BAD, inc |-> BAD, tilt |-> BAD]

\* the invariant that a user relies on
RingInv(s, K) ==
    /\ K.zero < s.inner /\ s.inner < s.outer
    /\ K.zero <= s.trans /\ s.trans <= K.one
    /\ K.zero <= s.inc /\ s.inc <= K.ninety
    /\ K.m180 <= s.tilt /\ s.tilt <= K.p180
    /\ \A f \in Fields : s[f] # NAN /\ s[f] # BAD

\* an inner radius of zero stands for the smallest radius
Stored(f, v, K) == IF f = "inner" /\ v = K.zero THEN K.eps ELSE v

Assigned(s, f, v, K) == [s EXCEPT ![f] = Stored(f, v, K)]

Infinite(v) == v = PINF \/ v = NINF

\* may / must an assignment be accepted
MayAccept(s, f, v, K) ==
    /\ v # NAN /\ v # BAD
    /\ RingInv(Assigned(s, f, v, K), K)
MustAccept(s, f, v, K) == MayAccept(s, f, v, K) /\ ~Infinite(v)

Built(a, K) == [a EXCEPT !.inner = Stored("inner", a.inner, K)]
MayBuild(a, K) ==
    /\ \A f \in Fields : a[f] # NAN /\ a[f] # BAD
    /\ RingInv(Built(a, K), K)
MustBuild(a, K) == MayBuild(a, K) /\ \A f \in Fields : ~Infinite(a[f])
=============================================================================
