--------------------------- MODULE MC_Checkpoint ---------------------------
(* The checkpoint protocol of the code: one file is written after the other   *)
(* (a file is damaged while it is written), the folder is deleted file by     *)
(* file; the process may die between any two steps, up to Deaths times, and   *)
(* whatever is left is loaded.                                                *)
(*   Y  the row of the checkpoint      D  diagnostics                         *)
(*   N  resolution                     M1, M2  property maps                  *)
(* A map file holds the number of rows that are filled in.  Old is the same   *)
(* for the checkpoint that an earlier, other build left in the folder.        *)
(* SafeClear: deleting starts with N, otherwise any file may go first.        *)
EXTENDS Checkpoint, TLC, Json
CONSTANTS Rows, Deaths, SafeClear, Left
VARIABLES files, run, deaths

Names == {"Y", "D", "N", "M1", "M2"}
Order == <<"Y", "D", "N", "M1", "M2">>
Gone == -2
Broken == -1
\* run: pc, row: the row that is computed next, done: checkpoints, k: file
Old(rows) == [n \in Names |-> IF n = "Y" THEN [own |-> FALSE, v |-> rows - 1]
                              ELSE IF n = "N" THEN [own |-> FALSE, v |-> 0]
                              ELSE [own |-> FALSE, v |-> rows]]
Nothing == [n \in Names |-> [own |-> TRUE, v |-> Gone]]
Init == /\ files = IF Left = 0 THEN Nothing ELSE Old(Left)
        /\ run = [pc |-> "clear", row |-> 0, done |-> 0, k |-> 1]
        /\ deaths = 0

Set(n, v) == files' = [files EXCEPT ![n] = [own |-> TRUE, v |-> v]]
IsGone(n) == files[n].v = Gone
Empty == \A n \in Names : IsGone(n)
MayDelete(n) == ~IsGone(n) /\ (SafeClear => n = "N" \/ IsGone("N"))

Clear == /\ run.pc \in {"clear", "delete"}
         /\ IF Empty
            THEN UNCHANGED files /\ run' = [run EXCEPT !.pc = IF @ = "clear" THEN "compute" ELSE "done"]
            ELSE /\ \E n \in Names : MayDelete(n) /\ files' = [files EXCEPT ![n].v = Gone]
                 /\ UNCHANGED run
         /\ UNCHANGED deaths
Compute == /\ run.pc = "compute"
           /\ run' = [run EXCEPT !.row = @ + 1, !.pc = "begin", !.k = 1]
           /\ UNCHANGED <<files, deaths>>
BeginFile == /\ run.pc = "begin" /\ Set(Order[run.k], Broken)
             /\ run' = [run EXCEPT !.pc = "finish"] /\ UNCHANGED deaths
Value(n) == IF n = "Y" THEN run.row - 1 ELSE IF n = "N" THEN 0 ELSE run.row
FinishFile == /\ run.pc = "finish" /\ Set(Order[run.k], Value(Order[run.k]))
              /\ run' = IF run.k < Len(Order) THEN [run EXCEPT !.pc = "begin", !.k = @ + 1]
                        ELSE [run EXCEPT !.done = run.row,
                                         !.pc = IF run.row = Rows THEN "delete" ELSE "compute"]
              /\ UNCHANGED deaths

(* ---- loading what is there *)
Loadable == \A n \in Names \ {"Y"} : files[n].v >= 0
HasY == ~IsGone("Y")
Mine == \A n \in Names : files[n].own
Theirs == \A n \in Names : ~files[n].own
\* the rows of the maps that are right in the end
Start == IF HasY THEN files["Y"].v ELSE Rows
Filled == \A n \in {"D", "M1", "M2"} : files[n].v >= Start
Result == IF ~Loadable \/ (HasY /\ files["Y"].v = Broken) THEN "error"
          ELSE IF ~Filled THEN "partial"
          ELSE IF Mine THEN "own" ELSE IF Theirs \/ ~HasY THEN "before" ELSE "mixed"
\* the process dies and the folder is loaded; the resumed build goes on
Die == /\ deaths < Deaths /\ run.pc # "done" /\ deaths' = deaths + 1
       /\ Result = "own" /\ HasY
       /\ UNCHANGED files
       /\ run' = [run EXCEPT !.row = Start, !.pc = "compute", !.k = 1]
Next == Clear \/ Compute \/ BeginFile \/ FinishFile \/ Die
Spec == Init /\ [][Next]_<<files, run, deaths>>
vars == <<files, run, deaths>>
Fair == Spec /\ WF_vars(Clear) /\ WF_vars(Compute) /\ WF_vars(BeginFile) /\ WF_vars(FinishFile)

Phase == IF run.pc = "delete" THEN "end"
         ELSE IF run.pc \in {"begin", "finish"} /\ ~(run.pc = "begin" /\ run.k = 1) THEN "write"
         ELSE IF run.pc = "clear" \/ run.done = 0 THEN "start" ELSE "quiet"
Inv == run.pc # "done" =>
       /\ Result \in MayGive(IF deaths > 0 /\ Phase = "start" THEN "write" ELSE Phase,
                             {"own"}, {"before", "own"})
       /\ MustGive(Phase, run.done) => Result = "own" /\ Start >= FirstRow(run.done)
Ends == <>(run.pc = "done")
\* what can be found after a death: replayed by the driver
Emit == PrintT("EDGE " \o ToJson([phase |-> Phase, pc |-> run.pc, k |-> run.k,
                                  done |-> run.done, deaths |-> deaths, left |-> Left,
                                  result |-> Result]))
=============================================================================
