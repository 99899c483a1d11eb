----------------------------- MODULE MC_Property -----------------------------
EXTENDS Property, TLC, Json
CONSTANTS Cells, Vals
VARIABLES s, returned
vars == <<s, returned>>
Masks == [1..Cells -> BOOLEAN] \cup {<<>>}
Datas == [1..Cells -> Vals \cup {NAN}]
Edge(op) == PrintT("EDGE " \o ToJson([op |-> op.op, pre |-> s, a |-> op]))
Init == /\ \E d \in Datas : s = SetContrast(New(d), NONE, NONE)
        /\ returned = <<>>
DoMask == \E m \in [1..Cells -> BOOLEAN] :
            /\ s' = SetMask(s, m) /\ returned' = <<>>
            /\ Edge([op |-> "mask", mask |-> m])
BadMask == \E kind \in {"dtype", "shape", "kind", "dims"} :
            UNCHANGED vars /\ Edge([op |-> "badmask", kind |-> kind])
DoRead == \E b \in BOOLEAN : /\ returned' = Read(s, b) /\ s' = s
                             /\ Edge([op |-> "read", masked |-> b])
Scribble == \E k \in 1..Cells, v \in Vals :
              /\ returned # <<>> /\ s' = s
              /\ returned' = [returned EXCEPT ![k] = v]
DoContrast == \E lo \in Vals \cup {NONE}, hi \in Vals \cup {NONE} :
                /\ s' = SetContrast(s, lo, hi) /\ returned' = returned
                /\ Edge([op |-> "contrast", lo |-> lo, hi |-> hi])
Next == DoMask \/ BadMask \/ DoRead \/ Scribble \/ DoContrast
Spec == Init /\ [][Next]_vars
View == s
\* data never change; a looser mask brings values back; NaN exactly where due
Inv == /\ \A k \in 1..Cells :
            (Read(s, TRUE)[k] = NAN) =
                (s.data[k] = NAN \/ (s.mask # <<>> /\ s.mask[k]))
       /\ \A m \in [1..Cells -> BOOLEAN] :
            Read(SetMask(SetMask(s, m), [k \in 1..Cells |-> FALSE]), TRUE)
                = Read(s, FALSE)
       /\ s.lo # NONE => \A v \in Numbers(s.data) :
             Smallest(s.data) <= v /\ v <= Largest(s.data)
Frame == [][s'.data = s.data]_vars
=============================================================================
