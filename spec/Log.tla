-------------------------------- MODULE Log --------------------------------
(* What the objects write to their logs.  A message is [lv, k, n]: its level, *)
(* what it tells, and the numbers that it states.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

DEBUG == 10
INFO == 20

Msg(k, n) == [lv |-> INFO, k |-> k, n |-> n]
\* what an object of some level lets through
Passes(msgs, level) == SelectSeq(msgs, LAMBDA m : m.lv >= level)
OfKind(msgs, k) == SelectSeq(msgs, LAMBDA m : m.k = k)
If(cond, msgs) == IF cond THEN msgs ELSE <<>>

(* ---- ring systems.  A state is [n (number of rings), inc, tilt]           *)
RingKinds == {"added", "removed", "replaced", "split", "merged"}
Overrides(s, ring) ==
    If(ring.inc # s.inc, <<Msg("inclination", <<ring.inc, s.inc>>)>>)
    \o If(ring.tilt # s.tilt, <<Msg("tilt", <<ring.tilt, s.tilt>>)>>)
Change(op, a, before, after) ==
    CASE op = "add" -> <<Msg("added", <<a.index>>)>>
      [] op = "remove" -> <<Msg("removed", <<a.index>>)>>
      [] op = "replace" -> <<Msg("replaced", <<a.index>>)>>
      [] op = "split" -> <<Msg("split", <<before, after>>)>>
      [] op = "merge" -> <<Msg("merged", <<before, after>>)>>
      [] OTHER -> <<>>

(* ---- grids.  A state is [ecl (known?), grads (how many), fit (any?)]       *)
\* the rows that a build computes, from row first on
Rows(first, rows) ==
    [k \in 1..(rows - first) |-> Msg("row", <<first + k, rows>>)]
Discarded(before, after) == If(before.fit /\ ~after.fit, <<Msg("cleared", <<>>)>>)
GridChange(op, a, before, after) ==
    CASE op = "build" -> Rows(a.first, a.rows)
      [] op = "add" -> If(before.ecl, <<Msg("adding", <<a.count>>)>>)
                       \o If(~before.ecl, <<Msg("missing", <<>>)>>)
      [] op = "eclipse" -> If(before.grads > 0, <<Msg("dropped", <<>>)>>)
      [] op = "remove" -> If(before.grads = 0, <<Msg("none", <<>>)>>)
      [] op = "fit" -> IF before.grads = 0 THEN <<Msg("nothing", <<>>)>>
                       ELSE <<Msg("fitting", <<before.grads>>)>>
      [] op = "read" -> If(~before.fit, <<Msg("nofit", <<>>)>>)
      [] op = "extract" -> <<Msg("extracting", <<a.count, a.most>>)>>
      [] op = "rescale" -> If(~a.any, <<Msg("unchanged", <<>>)>>)
      [] OTHER -> <<>>
=============================================================================
