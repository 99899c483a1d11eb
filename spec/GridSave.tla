------------------------------ MODULE GridSave ------------------------------
(* Folders with saved grids.  disk maps the name of each folder to what is in *)
(* it: a saved grid, something else (NoGrid) or a damaged grid.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NoGrid == [kind |-> "other", grid |-> "none"]
Saved(g) == [kind |-> "grid", grid |-> g]
Damaged(g) == [kind |-> "damaged", grid |-> g]
Exists(disk, d) == d \in DOMAIN disk
Put(disk, d, c) == [x \in DOMAIN disk \cup {d} |-> IF x = d THEN c ELSE disk[x]]

CanSave(disk, d) == ~Exists(disk, d)
AfterSave(disk, d, g) == Put(disk, d, Saved(g))
MustLoad(disk, d) == Exists(disk, d) /\ disk[d].kind = "grid"
\* a damaged folder may still give the very grid that was saved
MayLoad(disk, d) == Exists(disk, d) /\ disk[d].kind \in {"grid", "damaged"}
=============================================================================
