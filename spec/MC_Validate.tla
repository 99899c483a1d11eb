---------------------------- MODULE MC_Validate -----------------------------
(* Enumerates every abstract validation case over a small rank domain, checks *)
(* the design theorems and emits each case for replay on the real validators. *)
EXTENDS Validate, TLC, Json

Vals == {NAN, NINF, 1, 2, 3, PINF}
Bnds == {NONE, 1, 2, 3}
Kinds == {"int", "float", "other"}
KindName(k) == k

VARIABLE c
vars == <<c>>

NumberCase(k, v, i, lo, hi, x, a) ==
    [fn |-> "number", kind |-> k, v |-> v, integer |-> i, lo |-> lo, hi |-> hi,
     excl |-> x, args |-> a]

\* an array is abstracted to at most two (possibly offending) elements
ArrayCase(es, d, n, lo, hi, x, wd, wn, a) ==
    [fn |-> "array", elems |-> es, dtype |-> d, ndim |-> n, lo |-> lo,
     hi |-> hi, excl |-> x, wdtype |-> wd, wndim |-> wn, args |-> a]

Init ==
    \/ \E k \in Kinds, v \in Vals, i \in BOOLEAN, lo \in Bnds, hi \in Bnds,
          x \in BOOLEAN, a \in {"ok"} :
          /\ k = "int" => v \in {1, 2, 3}
          /\ k = "other" => v = 2
          /\ c = NumberCase(k, v, i, lo, hi, x, a)
    \/ \E k \in Kinds, i \in BOOLEAN, a \in {"lo", "hi", "excl", "integer"} :
          c = NumberCase(k, 2, i, 1, 3, FALSE, a)
    \/ \E e1 \in Vals, e2 \in {0} \cup Vals, lo \in Bnds, hi \in Bnds,
          x \in BOOLEAN, wd \in {"", "same", "other"}, wn \in {"", "same", "other"} :
          /\ (wd # "" /\ wn # "") => (e2 = 0 /\ e1 \in {2, 3} /\ lo \in {NONE, 2})
          /\ c = ArrayCase(IF e2 = 0 THEN <<e1>> ELSE <<e1, e2>>, "float64", 1,
                           lo, hi, x, wd, wn, "ok")
    \/ \E lo \in Bnds, hi \in Bnds, x \in BOOLEAN, wd \in {"", "same", "other"},
          wn \in {"", "same", "other"}, a \in {"ok", "lo", "hi", "excl"} :
          /\ (a # "ok") => (lo # NONE /\ hi # NONE)
          /\ c = ArrayCase(<<>>, "float64", 1, lo, hi, x, wd, wn, a)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Theorems ==
    c.fn = "number" =>
    /\ ExclusiveStricter(c.v, c.lo, c.hi)
    /\ \A lo2 \in Bnds, hi2 \in Bnds :
          Monotone(c.v, c.lo, c.hi, lo2, hi2, c.excl)
    /\ NumberOutcomes(c.kind, c.v, c.integer, c.lo, c.hi, c.excl, TRUE) # {}
    /\ c.integer =>    \* demanding an integer only ever rejects more
        ("ok" \in NumberOutcomes(c.kind, c.v, TRUE, c.lo, c.hi, c.excl, TRUE)
           => "ok" \in NumberOutcomes(c.kind, c.v, FALSE, c.lo, c.hi, c.excl, TRUE))
ArrayTheorems ==
    c.fn = "array" =>
    LET a == [isarr |-> TRUE, dtype |-> c.dtype, ndim |-> c.ndim, elems |-> c.elems]
        q(es) == [lo |-> c.lo, hi |-> c.hi, excl |-> c.excl, dtype |-> "",
                  ndim |-> -1, argsOk |-> TRUE]
    IN \* an array passes exactly when each one-element array passes
       (c.lo # NONE \/ c.hi # NONE) /\ c.elems # <<>> =>
       (("ok" \in ArrayOutcomes(a, q(0)))
         <=> \A i \in 1..Len(c.elems) :
               "ok" \in ArrayOutcomes([a EXCEPT !.elems = <<c.elems[i]>>], q(0)))
Emit == PrintT("EDGE " \o ToJson(c))
Inv == Theorems /\ ArrayTheorems /\ Emit
=============================================================================
