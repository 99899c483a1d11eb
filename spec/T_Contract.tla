----------------------------- MODULE T_Contract -----------------------------
(* r: a call [m, p, v (the value of argument p, the others admissible), base  *)
(* (v is admissible as well), ctx, res, told (words of the refusal), pre,     *)
(* post (the object before and after), args (the arguments are as they were), *)
(* files (no file was written)].                                              *)
EXTENDS Contract, TraceKit

SetOf(q) == {q[k] : k \in 1..Len(q)}
\* an omission [m, p, v (the name of the default), a, b, c (what came of the call
\* without the argument, with its default, with another value), args]
Omitted(r, st) == [st |-> st, fails |->
    Must("C29.known", \E k \in 1..Len(Defaults) :
             Defaults[k].m = r.m /\ Defaults[k].p = r.p /\ Defaults[k].v = r.v)
    \cup Must("C29.default", r.a = r.b)
    \cup Must("C29.arguments", r.args)]
Judge(r, st) ==
    IF r.op = "omit" THEN Omitted(r, st) ELSE
    LET row == RowOf(r.m, r.p)
        verdict == IF r.base THEN "yes" ELSE Verdict(row.d, r.v, r.ctx)
        done == r.res = "ok"
    IN [st |-> st, fails |->
          Must("C29.accepted", verdict = "yes" => done)
          \cup Must("C29.refused", verdict = "no" => r.res \notin {"ok", "Timeout"})
          \cup Must("C29.told", (verdict = "no" /\ ~done) =>
                    row.told = {} \/ row.told \cap SetOf(r.told) # {})
          \cup Must("C29.unchanged", (verdict = "no" /\ ~done) => r.post = r.pre)
          \cup Must("C29.arguments", r.args)
          \cup Must("C29.files", (verdict = "no" /\ ~done) => r.files)]

VARIABLES l, st
TraceInit == l = 1 /\ st = 0
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
