------------------------------ MODULE T_Crash ------------------------------
(* Recorded deaths of real builds: "build" gives what the uninterrupted build *)
(* gives (digests of the grid and of its diagnostics), "left" the same for    *)
(* the build whose checkpoint lay in the folder before, "dead" what loading   *)
(* the folder gave after a death.  first: the first row that was checkpointed *)
(* by the resumed build (-1: unknown).                                        *)
EXTENDS Checkpoint, TraceKit

Given(r) == IF r.res = "ok" THEN r.out ELSE "error"
Judge(r, st) ==
    CASE r.op = "build" -> [st |-> [own |-> {r.out}, before |-> {}],
                            fails |-> Must("C17.built", r.res = "ok")]
      [] r.op = "left" -> [st |-> [st EXCEPT !.before = {r.out}],
                           fails |-> Must("C17.built", r.res = "ok")]
      [] r.op = "dead" ->
           [st |-> st, fails |->
              Must("C17.never_partial", Given(r) \in MayGive(r.phase, st.own, st.before))
              \cup Must("C17.resumes", MustGive(r.phase, r.rows) => r.res = "ok")
              \cup Must("C17.resumes_other", r.phase = "untouched" => Given(r) \in st.before)
              \cup Must("C17.ends", r.res # "Timeout")
              \cup Must("C17.not_redone",
                        (r.res = "ok" /\ r.first >= 0 /\ r.rows > 0)
                            => r.first >= FirstRow(r.rows))]
      [] r.op = "progress" ->       \* checkpoints are there while it builds
           [st |-> st, fails |-> Must("C17.checkpoints", r.res # "ok" \/ r.seen \/ r.rows < 2)]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
