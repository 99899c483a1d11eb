----------------------------- MODULE MC_Build -----------------------------
(* Every history of up to MaxLen operations in a working directory.           *)
EXTENDS Build, TLC, Json
CONSTANTS MaxLen
VARIABLES w, hist
Keys == {"a", "b"}
Init == w = [grids |-> <<>>, caller |-> 0, files |-> 0, temp |-> NoFolder, saved |-> {}] /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
DoBuild == \E k \in Keys, kd, is, fresh \in BOOLEAN :
    /\ (fresh => ~kd)
    /\ w' = [w EXCEPT !.grids = Remember(@, k, k),
                      !.temp = AfterTemp(@, [saving |-> is], TRUE)]
    /\ Log([op |-> "build", key |-> k, kd |-> kd, is |-> is, fresh |-> fresh])
DoBad == \E is \in BOOLEAN : UNCHANGED w /\ Log([op |-> "bad", is |-> is])
DoSave == \E k \in DOMAIN w.grids : k \notin w.saved
    /\ w' = [w EXCEPT !.saved = @ \cup {k}, !.files = @ + 1]
    /\ Log([op |-> "save", key |-> k])
DoLoad == \E k \in w.saved :
    /\ w' = [w EXCEPT !.temp = AfterTemp(@, [saving |-> FALSE], TRUE)]
    /\ Log([op |-> "load", key |-> k])
\* the checkpoint of an interrupted build
DoLeave == w.temp = NoFolder /\ w' = [w EXCEPT !.temp = "left"] /\ Log([op |-> "leave"])
DoEdit == w.caller < 1 /\ w.grids # <<>> /\ w' = [w EXCEPT !.caller = @ + 1] /\ Log([op |-> "edit"])
Next == Len(hist) < MaxLen /\ (DoBuild \/ DoBad \/ DoSave \/ DoLoad \/ DoLeave \/ DoEdit)
Spec == Init /\ [][Next]_<<w, hist>>
View == <<w, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
Inv == /\ \A k \in DOMAIN w.grids : w.grids[k] = k
       /\ w.files = Cardinality(w.saved)
\* only leaving a checkpoint and intermittent saving touch the folder
Frame == [][ w'.temp = w.temp \/ w'.temp = NoFolder \/ w.temp = NoFolder ]_<<w, hist>>
=============================================================================
