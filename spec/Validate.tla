------------------------------ MODULE Validate ------------------------------
(* The input gate of BeyonCE: which values a validator accepts.               *)
(* Numbers are abstracted to ranks: exact order, no rounding.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NAN  == -1          \* rank of a NaN
NINF == -2          \* the rank of minus infinity
PINF == 1000000000  \* the rank of plus infinity
NONE == -3          \* bound not given

Lo(b) == IF b = NONE THEN NINF ELSE b
Hi(b) == IF b = NONE THEN PINF ELSE b

\* kinds of values, as the validators distinguish them
IntKinds   == {"int", "int0", "int8", "int16", "int32", "int64"}
FloatKinds == {"float", "float16", "float32", "float64", "float128"}
NumKinds   == IntKinds \cup FloatKinds

KindOk(kind, integer) == kind \in (IF integer THEN IntKinds ELSE NumKinds)

\* v lies within the bounds
Within(v, lo, hi, excl) ==
    /\ v # NAN
    /\ IF excl THEN Lo(lo) < v /\ v < Hi(hi) ELSE Lo(lo) <= v /\ v <= Hi(hi)

Bounded(lo, hi) == Lo(lo) # NINF \/ Hi(hi) # PINF

\* what a bounds check may decide about one value: "in", "out" or either
Verdicts(v, lo, hi, excl) ==
    IF v = NAN THEN IF Bounded(lo, hi) THEN {"out"}
                    ELSE IF excl THEN {"in", "out"} ELSE {"in"}
    ELSE IF excl /\ v \in {NINF, PINF}     \* infinity against "no bound"
         THEN IF Within(v, lo, hi, FALSE) THEN {"in", "out"} ELSE {"out"}
         ELSE IF Within(v, lo, hi, excl) THEN {"in"} ELSE {"out"}

Contradictory(lo, hi) == Lo(lo) > Hi(hi)

\* allowed outcomes of number(); argsOk: bounds and flags have the right type
NumberOutcomes(kind, v, integer, lo, hi, excl, argsOk) ==
    LET kindBad == ~KindOk(kind, integer)
        vs      == IF kind \in NumKinds THEN Verdicts(v, lo, hi, excl) ELSE {}
        errors  == (IF kindBad \/ ~argsOk THEN {"TypeError"} ELSE {})
                   \cup (IF argsOk /\ (Contradictory(lo, hi) \/ "out" \in vs)
                         THEN {"ValueError"} ELSE {})
        mayPass == ~kindBad /\ argsOk /\ ~Contradictory(lo, hi) /\ "in" \in vs
    IN errors \cup (IF mayPass THEN {"ok"} ELSE {})

\* a: [isarr, dtype, ndim, elems: sequence of ranks]
\* q: [lo, hi, excl, dtype ("" if not demanded), ndim (-1), argsOk]
ArrayOutcomes(a, q) ==
    LET wantBounds == q.lo # NONE \/ q.hi # NONE
        vs(i)   == Verdicts(a.elems[i], q.lo, q.hi, q.excl)
        anyOut  == \E i \in 1..Len(a.elems) : vs(i) = {"out"}
        maybe   == \E i \in 1..Len(a.elems) : "out" \in vs(i)
        bValue  == wantBounds /\ q.argsOk /\ (Contradictory(q.lo, q.hi) \/ maybe)
        bSure   == wantBounds /\ q.argsOk /\ (Contradictory(q.lo, q.hi) \/ anyOut)
        dimBad  == q.ndim # -1 /\ q.ndim # a.ndim
        typeBad == q.dtype # "" /\ q.dtype # a.dtype
    IN IF ~a.isarr THEN {"TypeError"}
       ELSE (IF bValue THEN {"ValueError"} ELSE {})
            \cup (IF typeBad \/ ~q.argsOk THEN {"TypeError"} ELSE {})
            \cup (IF dimBad THEN {"InvalidDimensionsError"} ELSE {})
            \cup (IF ~bSure /\ ~typeBad /\ ~dimBad /\ q.argsOk
                  THEN {"ok"} ELSE {})

\* s: [shapes: sequence of shapes, <<-1>> for something that is no array;
\*     names: number of names]
ShapeOutcomes(s) ==
    LET n == Len(s.shapes)
        notArray == \E i \in 1..n : s.shapes[i] = <<-1>>
        differ == \E i, j \in 1..n : s.shapes[i] # s.shapes[j]
        errors == (IF n < 2 \/ n # s.names THEN {"AttributeError"} ELSE {})
                  \cup (IF notArray THEN {"TypeError", "AttributeError"} ELSE {})
                  \cup (IF differ /\ ~notArray THEN {"InvalidShapeError"} ELSE {})
    IN IF errors = {} THEN {"ok"} ELSE errors

-----------------------------------------------------------------------------
(* Sanity theorems about the design, checked exhaustively by MC_Validate.     *)
\* widening the bounds never rejects what was accepted
Monotone(v, lo, hi, lo2, hi2, excl) ==
    (Lo(lo2) <= Lo(lo) /\ Hi(hi) <= Hi(hi2) /\ Within(v, lo, hi, excl))
        => Within(v, lo2, hi2, excl)
\* exclusive is stricter than inclusive, and differs exactly on the bounds
ExclusiveStricter(v, lo, hi) ==
    /\ Within(v, lo, hi, TRUE) => Within(v, lo, hi, FALSE)
    /\ (Within(v, lo, hi, FALSE) /\ ~Within(v, lo, hi, TRUE))
          => v \in {Lo(lo), Hi(hi)}
=============================================================================
