---------------------------- MODULE MC_GridSave ----------------------------
(* Every history of edits, saves, loads and damages with two folders.         *)
EXTENDS GridSave, TLC, Json
CONSTANTS MaxLen, MaxEdits
VARIABLES disk, cur, edits, hist
Dirs == {"p", "q"}
Init == disk = <<>> /\ cur = 0 /\ edits = 0 /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Kinds == {"gradients", "hill", "rescale", "remove", "fit", "eclipse"}
DoEdit == /\ edits < MaxEdits /\ edits' = edits + 1 /\ cur' = edits + 1
          /\ \E k \in Kinds : Log([op |-> "edit", kind |-> k]) /\ UNCHANGED disk
DoSave == \E d \in Dirs :
    /\ disk' = IF CanSave(disk, d) THEN AfterSave(disk, d, cur) ELSE disk
    /\ Log([op |-> "save", dir |-> d]) /\ UNCHANGED <<cur, edits>>
DoOccupy == \E d \in Dirs : ~Exists(disk, d)
    /\ disk' = Put(disk, d, NoGrid) /\ Log([op |-> "occupy", dir |-> d]) /\ UNCHANGED <<cur, edits>>
DoDamage == \E d \in Dirs, how \in {"remove", "cut"} :
    /\ Exists(disk, d) /\ disk[d].kind = "grid"
    /\ disk' = Put(disk, d, Damaged(disk[d].grid))
    /\ Log([op |-> "damage", dir |-> d, how |-> how]) /\ UNCHANGED <<cur, edits>>
DoLoad == \E d \in Dirs, adopt \in BOOLEAN :
    /\ (adopt => MustLoad(disk, d))
    /\ cur' = IF adopt THEN disk[d].grid ELSE cur
    /\ Log([op |-> "load", dir |-> d, adopt |-> adopt]) /\ UNCHANGED <<disk, edits>>
Next == Len(hist) < MaxLen /\ (DoEdit \/ DoSave \/ DoOccupy \/ DoDamage \/ DoLoad)
Spec == Init /\ [][Next]_<<disk, cur, edits, hist>>
View == <<disk, cur, edits, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
Inv == \A d \in DOMAIN disk : disk[d].kind # "other" => disk[d].grid \in 0..edits
\* a folder never changes but by damage
Frame == [][\A d \in DOMAIN disk : disk'[d] = disk[d] \/ disk'[d] = Damaged(disk[d].grid)]_<<disk, cur, edits, hist>>
=============================================================================
