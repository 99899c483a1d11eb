------------------------------ MODULE MC_Viewer ------------------------------
EXTENDS Viewer, TLC, Json
CONSTANTS MaxN, MaxLen
VARIABLES s, hist
Init == \E n \in 2..MaxN : \E i \in -1..(n - 1), f \in BOOLEAN :
          s = Start(n, i, f) /\ hist = <<[n |-> n, i |-> i, frozen |-> f]>>
Next == /\ Len(hist) <= MaxLen
        /\ \E up \in BOOLEAN : s' = Scroll(s, up) /\ hist' = Append(hist, [up |-> up])
Spec == Init /\ [][Next]_<<s, hist>>
Emit == (Len(hist') > MaxLen /\ (s.frozen => hist'[2].up)) =>
           PrintT("EDGE " \o ToJson(hist'))
\* the index stays on the axis; a scroll moves by at most one; the half is
\* symmetric about the smallest radius
Inv == /\ s.i \in 0..(s.n - 1)
       /\ \A i \in 0..(s.n - 1) : s.n % 2 = 1 =>
            (Half(2, s.n, i) = "horizontal") =
               (Half(2, s.n, s.n - 1 - i) = "vertical")
Step == [][/\ Abs(s'.i - s.i) <= 1 /\ (s.frozen => s' = s)]_<<s, hist>>
=============================================================================
