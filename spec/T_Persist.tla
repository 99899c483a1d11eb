------------------------------ MODULE T_Persist ------------------------------
(* r: [op, res, f (folder), slot, obj, file, kind, at]; "reset" starts a new history. *)
(* at: the position of a saved gradient in millionths; a folder (of one gradient)     *)
(* may only be written to by gradients whose positions are within 0.0002.             *)
EXTENDS Persist, TraceKit

Folder(st, f) == IF f \in DOMAIN st THEN st[f] ELSE EmptyFolder
Put(st, f, x) == (f :> x) @@ st
Far(a, b) == a - b >= 200 \/ b - a >= 200

Judge(r, st) ==
    LET f == Folder(st, r.f) IN
    CASE r.op = "reset" -> [st |-> <<>>, fails |-> {}]
      [] r.op = "save" ->
         [st |-> IF r.slot = "params" THEN Put(st, r.f, SaveParams(f, r.obj.pid))
                 ELSE Put(st, r.f, Save(f, r.slot, r.obj @@ [at |-> r.at])),
          fails |-> Must("C11.save", r.res = "ok")
                    \cup Must("C11.overwrites_another",
                              (r.slot = "g" /\ Slot(f, "g") # NoObj) =>
                              ~Far(Slot(f, "g").at, r.at))]
      [] r.op = "hurt" -> [st |-> Put(st, r.f, Hurt(f, r.slot, r.file, r.kind)), fails |-> {}]
      [] r.op = "load" ->
         [st |-> st,
          fails |->
            Must("C11.damage_detected", MustFail(f, r.slot) => r.res = "LoadError")
            \cup (IF MustFail(f, r.slot) \/ Free(f, r.slot) THEN {} ELSE
               Must("C11.loads", r.res = "ok")
               \cup (IF r.res # "ok" THEN {} ELSE
                  LET o == Loaded(f, r.slot) IN
                  Must("C11.parameters", r.obj.pid = o.pid)
                  \cup Must("C11.data", r.obj.data = o.data)
                  \cup Must("C11.mask", r.obj.mask = o.mask)
                  \cup Must("C11.position", r.obj.pos = o.pos)
                  \cup Must("C11.measurement", r.obj.meas = o.meas)))]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
