--------------------------- MODULE T_Diagnostics ---------------------------
(* r: [op, res, y, x, v, wf, table]; table[i][j] is what reading point        *)
(* (i - 2, j - 2) gave afterwards: a pair, 0 (an exception), -1 (something    *)
(* that was never stored).                                                    *)
EXTENDS Diagnostics, TraceKit

Cells(r) == {<<i, j>> : i \in 1..Len(r.table), j \in 1..Len(r.table[1])}

Judge(r, st) ==
    LET can == r.wf /\ CanStore(st, r.y, r.x)
        s == CASE r.op = "new" -> Empty(r.y, r.x)
               [] r.op = "store" /\ can -> Store(st, r.y, r.x, r.v)
               [] r.op = "extend" -> Extend(st)
               [] OTHER -> st
        wrong == {c \in Cells(r) :
                    r.table[c[1]][c[2]] # Read(s, c[1] - 2, c[2] - 2)}
        off == {c \in Cells(r) :
                  r.table[c[1]][c[2]] # OffByOne(s, c[1] - 2, c[2] - 2)}
    IN [st |-> s,
        fails |->
          Must("C08.store_accepted", (r.op = "store" /\ can) => r.res = "ok")
          \cup Must("C08.store_rejected",
                    (r.op = "store" /\ ~can) => r.res \notin {"ok", "Timeout"})
          \cup Must("C08.operation", r.op \in {"new", "extend", "reload", "other"}
                                        => r.res = "ok")
          \cup Must("C08.read", ~s.ext => wrong = {})
          \cup Must("C08.extended_mirror_off_by_one", s.ext => wrong \cap (Cells(r) \ off) = {})
          \cup Must("C08.extended_read", s.ext => wrong \cap off = {})
          \cup Must("C08.argument", r.argsame)]

VARIABLES l, st
TraceInit == l = 1 /\ st = Empty(1, 1)
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
