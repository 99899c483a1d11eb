----------------------------- MODULE T_GridSave -----------------------------
(* Recorded saves and loads.  A grid is a record of digests with a sequence   *)
(* of gradients; files are digests of a folder.                               *)
EXTENDS GridSave, TraceKit

Judge(r, st) ==
    CASE r.op = "init" -> [st |-> <<>>, fails |-> {}]
      [] r.op = "save" ->
           [st |-> IF r.res = "ok" THEN AfterSave(st, r.dir, r.grid) ELSE st,
            fails |-> Must("C18.saved", CanSave(st, r.dir) => r.res = "ok")
                \cup Must("C18.not_overwritten", ~CanSave(st, r.dir) =>
                          r.res \notin {"ok", "Timeout"} /\ r.post = r.pre)
                \cup Must("C18.others_unchanged", r.others_post = r.others_pre)
                \cup Must("C18.grid_unchanged", r.after = r.grid)]
      [] r.op = "occupy" -> [st |-> Put(st, r.dir, NoGrid), fails |-> {}]
      [] r.op = "damage" -> [st |-> Put(st, r.dir, Damaged(st[r.dir].grid)), fails |-> {}]
      [] r.op = "repair" -> [st |-> Put(st, r.dir, Saved(st[r.dir].grid)), fails |-> {}]
      [] r.op = "load" ->
           [st |-> st,
            fails |-> Must("C18.loaded", MustLoad(st, r.dir) => r.res = "ok")
                \cup Must("C18.no_grid", ~MayLoad(st, r.dir) => r.res \notin {"ok", "Timeout"})
                \cup Must("C18.same", (r.res = "ok" /\ MustLoad(st, r.dir))
                                         => r.grid = st[r.dir].grid)
                \cup Must("C18.damage", (r.res = "ok" /\ MayLoad(st, r.dir) /\ ~MustLoad(st, r.dir))
                                         => r.grid = st[r.dir].grid)
                \cup Must("C18.unchanged_by_load", r.post = r.pre /\ r.others_post = r.others_pre)]
      \* the same call on a grid and on what was loaded from its folder
      [] r.op = "twin" -> [st |-> st, fails |-> Must("C18.behaves_the_same", r.one = r.two)]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
