------------------------------- MODULE Build -------------------------------
(* Building grids in a working directory: what a build or load may touch.     *)
(* A world is [grids, caller, files, temp]: the grid that each key (grid      *)
(* parameters and resolution) gave, the caller's own objects, the files       *)
(* outside the temporary folder and the contents of the temporary folder.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NoFolder == "none"

\* does the operation go on with a checkpoint, i.e. use the temporary folder
UsesTemp(op) == op.saving
AfterTemp(temp, op, done) == IF UsesTemp(op) /\ done THEN NoFolder ELSE temp
\* a key that was seen before gives the grid that it gave before
SameGrid(grids, key, grid) == key \in DOMAIN grids => grids[key] = grid
Remember(grids, key, grid) ==
    IF key \in DOMAIN grids THEN grids
    ELSE [k \in DOMAIN grids \cup {key} |-> IF k = key THEN grid ELSE grids[k]]
=============================================================================
