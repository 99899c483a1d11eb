------------------------------ MODULE TraceKit ------------------------------
(* Total trace validation.  A trace is a sequence of records; a module that   *)
(* extends this one defines Judge(r, st), which gives the set of clauses that *)
(* record r breaks in specification state st and the state after it (resynced *)
(* to what was observed, so that the rest of the trace is validated as well). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

\* the clause tag if the condition does not hold
Must(tag, cond) == IF cond THEN {} ELSE {tag}

Report(l, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("FAIL " \o ToJson([l |-> l, f |-> fails]))

Finish(l) == IF l = Len(Recs) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
=============================================================================
