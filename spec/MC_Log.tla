------------------------------ MODULE MC_Log ------------------------------
(* Two objects of any level, created and edited in any order; out is what is  *)
(* written.  An object can be created again (anew, with another level).       *)
EXTENDS Log, TLC, Json
CONSTANTS MaxLen
VARIABLES objs, out, hist
Levels == {10, 20, 30}
Gone == [level |-> 0, edits |-> 0, n |-> 0]
Init == objs = [o \in {1, 2} |-> Gone] /\ out = [o \in {1, 2} |-> <<>>] /\ hist = <<>>
Log_(r) == hist' = Append(hist, r)
New == \E o \in {1, 2}, v \in Levels, same \in BOOLEAN :
    /\ (objs[1].level = 0 => o = 1)
    /\ objs' = [objs EXCEPT ![o] = [level |-> v, edits |-> 0, n |-> 2]]
    /\ out' = [out EXCEPT ![o] = <<>>]
    /\ Log_([op |-> "new", o |-> o, level |-> v, same |-> same])
Ops == {"add", "remove", "replace", "split", "merge"}
After(op, n) == CASE op = "add" -> n + 1 [] op = "remove" -> n - 1
                  [] op = "split" -> 2 * n [] op = "merge" -> 1 [] OTHER -> n
Messages(op, n) == <<[lv |-> DEBUG, k |-> "table", n |-> <<n, After(op, n)>>]>>
                   \o Change(op, [index |-> 0], n, After(op, n))
Edit == \E o \in {1, 2}, op \in Ops :
    /\ objs[o].level > 0 /\ objs[o].n >= 1 /\ objs[o].n <= 4
    /\ objs' = [objs EXCEPT ![o].edits = @ + 1, ![o].n = After(op, @)]
    /\ out' = [out EXCEPT ![o] = @ \o Passes(Messages(op, objs[o].n), objs[o].level)]
    /\ Log_([op |-> op, o |-> o, ok |-> TRUE])
Reject == \E o \in {1, 2}, op \in Ops : objs[o].level > 0 /\ UNCHANGED <<objs, out>>
    /\ Log_([op |-> op, o |-> o, ok |-> FALSE])
Next == Len(hist) < MaxLen /\ (New \/ Edit \/ Reject)
Spec == Init /\ [][Next]_<<objs, out, hist>>
View == <<objs, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
Count(msgs, kinds) == Len(SelectSeq(msgs, LAMBDA m : m.k \in kinds))
Inv == \A o \in {1, 2} :
    /\ Count(out[o], RingKinds) = (IF objs[o].level <= INFO THEN objs[o].edits ELSE 0)
    /\ Count(out[o], {"table"}) = (IF objs[o].level <= DEBUG THEN objs[o].edits ELSE 0)
    /\ \A k \in 1..Len(out[o]) : out[o][k].lv >= objs[o].level
\* an edit of one object writes nothing to the log of the other
Frame == [][\E o \in {1, 2} : out'[o] = out[o]]_<<objs, out, hist>>
ASSUME \A first \in 0..3, rows \in 0..4 : first <= rows =>
    /\ Len(Rows(first, rows)) = rows - first
    /\ \A k \in 1..(rows - first) : Rows(first, rows)[k].n = <<first + k, rows>>
=============================================================================
