----------------------------- MODULE T_Property -----------------------------
(* C09 records: [op, res, wf, data (new), mask, masked, lo, hi, post];        *)
(* post: [m, u, mask, lo, hi] - a masked and an unmasked read, the mask and   *)
(* the limits after the operation; out: what the operation itself returned.   *)
EXTENDS Property, TraceKit

Judge(r, st) ==
    LET canMask == r.op = "mask" /\ CanMask(st, r.mask, r.wf)
        allnan == Numbers(st.data) = {}
        s == CASE r.op = "new" -> SetContrast(New(r.data), NONE, NONE)
               [] canMask -> SetMask(st, r.mask)
               [] r.op = "contrast" /\ r.wf -> SetContrast(st, r.lo, r.hi)
               [] OTHER -> st
        \* limits for data without a value are ignored, valid or not
        free == r.op = "contrast" /\ ~r.wf /\ r.res = "ok"
    IN [st |-> IF free THEN [s EXCEPT !.lo = r.post.lo, !.hi = r.post.hi] ELSE s,
        fails |->
          Must("C09.mask_accepted", canMask => r.res = "ok")
          \cup Must("C09.mask_rejected", (r.op = "mask" /\ ~canMask)
                                            => r.res \notin {"ok", "Timeout"})
          \cup Must("C09.contrast_accepted",
                    (r.op \in {"contrast", "new"} /\ r.wf) => r.res = "ok")
          \cup Must("C09.contrast_rejected",
                    (r.op = "contrast" /\ ~r.wf /\ ~allnan)
                       => r.res \notin {"ok", "Timeout"})
          \cup Must("C09.read_accepted", r.op = "read" /\ r.wf => r.res = "ok")
          \cup Must("C09.read", r.op = "read" /\ r.wf /\ r.res = "ok"
                                   => r.out = Read(s, r.masked))
          \cup Must("C09.plot", r.op = "plot" => r.res = "ok")
          \cup Must("C09.data", r.post.u = s.data)
          \cup Must("C09.masked_read", r.post.m = Read(s, TRUE))
          \cup Must("C09.mask", r.post.mask = s.mask)
          \cup Must("C09.limits", free \/ s.lo = NONE
                       \/ (r.post.lo = s.lo /\ r.post.hi = s.hi))]

VARIABLES l, st
TraceInit == l = 1 /\ st = New(<<>>)
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
