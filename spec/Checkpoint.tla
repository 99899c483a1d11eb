----------------------------- MODULE Checkpoint -----------------------------
(* What a dying build with intermittent saving may leave behind.              *)
(* phase is the moment of death:                                              *)
(*   "untouched" before the build did anything to the folder                  *)
(*   "start"  before the first checkpoint of this run is begun                *)
(*   "quiet"  between two checkpoints, while a row is computed                *)
(*   "write"  while a checkpoint is written                                   *)
(*   "end"    after the last checkpoint, while the folder is deleted          *)
(* rows is the number of rows of which a checkpoint is complete.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* what loading the folder may give: nothing, or the grid of the build whose
\* checkpoint is in there (the one before this run, until this one began)
MayGive(phase, own, before) ==
    {"error"} \cup (IF phase \in {"untouched", "start"} THEN before ELSE own)
MustGive(phase, rows) == phase = "quiet" /\ rows > 0
\* the first row that a resumed build may compute; a row may be checkpointed
\* before it is redone, so the last one is computed again
FirstRow(rows) == rows - 1
=============================================================================
