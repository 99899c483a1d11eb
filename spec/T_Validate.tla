----------------------------- MODULE T_Validate -----------------------------
(* Conformance of recorded validator calls with Validate.tla.                 *)
EXTENDS Validate, TraceKit

JudgeNumber(r) ==
    LET allowed == NumberOutcomes(r.kind, r.v, r.integer, r.lo, r.hi, r.excl,
                                  r.argsok)
    IN Must("C01.number_outcome", r.res \in allowed)
       \cup Must("C01.number_identity", r.res = "ok" => r.same)

JudgeClass(r) ==
    Must("C01.class_outcome", r.res = IF r.isa THEN "ok" ELSE "TypeError")
    \cup Must("C01.class_identity", r.res = "ok" => r.same)

JudgeArray(r) ==
    LET a == [isarr |-> r.isarr, dtype |-> r.dtype, ndim |-> r.ndim,
              elems |-> r.elems]
        q == [lo |-> r.lo, hi |-> r.hi, excl |-> r.excl, dtype |-> r.wdtype,
              ndim |-> r.wndim, argsOk |-> r.argsok]
    IN Must("C02.array_outcome", r.res \in ArrayOutcomes(a, q))
       \cup Must("C02.array_identity", r.res = "ok" => r.same)
       \cup Must("C02.array_unmodified", r.unmodified)

JudgeShapes(r) ==
    Must("C02.shape_outcome", r.res \in ShapeOutcomes(r))
    \cup Must("C02.shape_unmodified", r.unmodified)

Judge(r, st) ==
    [st |-> st,
     fails |-> CASE r.op = "number" -> JudgeNumber(r)
                 [] r.op = "class"  -> JudgeClass(r)
                 [] r.op = "array"  -> JudgeArray(r)
                 [] r.op = "shapes" -> JudgeShapes(r)]

VARIABLES l, st
TraceInit == l = 1 /\ st = 0
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
