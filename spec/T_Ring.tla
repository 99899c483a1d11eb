------------------------------- MODULE T_Ring -------------------------------
EXTENDS Ring, TraceKit

\* r: [op, k, res, post, args (new) | field, v (set)]
Judge(r, st) ==
    LET K == r.k IN
    CASE r.op = "new" ->
           [st |-> IF r.res = "ok" THEN r.post ELSE NoRing,
            fails |->
              Must("C03.construct_accepts", MustBuild(r.args, K) => r.res = "ok")
              \cup Must("C03.construct_rejects",
                        ~MayBuild(r.args, K) => r.res \notin {"ok", "Timeout"})
              \cup Must("C03.construct_value",
                        r.res = "ok" => r.post = Built(r.args, K))
              \cup Must("C03.invariant", r.res = "ok" => RingInv(r.post, K))]
      [] r.op = "set" ->
           [st |-> r.post,
            fails |->
              Must("C03.assign_accepts",
                   MustAccept(st, r.field, r.v, K) => r.res = "ok")
              \cup Must("C03.assign_rejects",
                   ~MayAccept(st, r.field, r.v, K) => r.res \notin {"ok", "Timeout"})
              \cup Must("C03.assign_value",
                   r.res = "ok" => r.post = Assigned(st, r.field, r.v, K))
              \cup Must("C03.rejected_unchanged", r.res # "ok" => r.post = st)
              \cup Must("C03.invariant", RingInv(r.post, K))]

VARIABLES l, st
TraceInit == l = 1 /\ st = NoRing
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
