----------------------------- MODULE MC_Session -----------------------------
(* Every history of up to MaxLen calls on a grid of three points.  Gradients  *)
(* are [id, sv, tc]: which one, the eclipse parameters and the transmission   *)
(* change that scale it.  The scaled gradient of id under sv, tc is a rank.   *)
EXTENDS Session, TLC, Json
CONSTANTS MaxLen, MaxGrads
VARIABLES s, hist
Ids == {1, 2}
Theo(id) == IF id = 1 THEN <<4, 2, NAN>> ELSE <<1, 5, NAN>>
Radius == <<3, 6, NAN>>
ScaledOf(g) == g.sv + g.tc + g.id
Mask(g) == SlopeMask(Theo(g.id), ScaledOf(g))
Masks(st) == [k \in 1..Len(st.grads) |-> Mask(st.grads[k])]
Comb(st) == Combined(st.hill, Radius, Masks(st))
FitOf(grads) == [k \in 1..Len(grads) |-> [id |-> grads[k].id, sc |-> ScaledOf(grads[k])]]

Faults == {"type", "range", "late"}
Log(r) == hist' = Append(hist, r)
Init == s = Start /\ hist = <<>>
Reject(r) == s' = s /\ Log(r)
DoEcl == \/ \E v \in {0, 1} : s' = SetEclipse(s, v) /\ Log([op |-> "ecl", v |-> v, fault |-> "none"])
         \/ \E f \in Faults : Reject([op |-> "ecl", v |-> 0, fault |-> f])
DoAdd == \/ \E ids \in {<<1>>, <<2>>, <<1, 2>>, <<2, 2>>} :
              /\ Len(s.grads) + Len(ids) <= MaxGrads
              /\ s' = IF HasEclipse(s)
                      THEN AddGradients(s, [k \in 1..Len(ids) |->
                               [id |-> ids[k], sv |-> s.ecl[1], tc |-> 0]])
                      ELSE s
              /\ Log([op |-> "add", ids |-> ids, fault |-> "none"])
         \/ \E f \in Faults \cup {"shape", "steep"} :
              HasEclipse(s) /\ Reject([op |-> "add", ids |-> <<1, 2>>, fault |-> f])
DoRemove == \/ \E gone \in SUBSET (1..Len(s.grads)) :
                 /\ gone # {}
                 /\ s' = RemoveGradients(s, gone)
                 /\ Log([op |-> "remove", gone |-> gone, fault |-> "none"])
            \/ \E f \in {"type", "range"} : Reject([op |-> "remove", gone |-> {}, fault |-> f])
DoScale == \/ \E what \in {"v", "u", "both"} :
                /\ HasGradients(s)
                /\ s' = Rescaled(s, 1 - s.ecl[1], [k \in 1..Len(s.grads) |->
                            [s.grads[k] EXCEPT !.sv = 1 - s.ecl[1]]])
                /\ Log([op |-> "scale", what |-> what, fault |-> "none"])
           \/ /\ HasGradients(s)
              /\ s' = Rescaled(s, s.ecl[1], [k \in 1..Len(s.grads) |->
                          [s.grads[k] EXCEPT !.tc = 1 - @]])
              /\ Log([op |-> "scale", what |-> "tc", fault |-> "none"])
           \/ \E f \in {"type", "range", "shape", "steep", "late"} :
                HasGradients(s) /\ Reject([op |-> "scale", what |-> "both", fault |-> f])
DoFit == \E w \in BOOLEAN : /\ s' = IF HasGradients(s) THEN Fitted(s, FitOf(s.grads)) ELSE s
                            /\ Log([op |-> "fit", w |-> w])
DoHill == \/ \E h \in {2, 4} : s' = SetHill(s, h) /\ Log([op |-> "hill", h |-> h, fault |-> "none"])
          \/ Reject([op |-> "hill", h |-> 2, fault |-> "range"])
DoLook == \E what \in {"read", "grads", "extract", "point"} : Reject([op |-> what])
Next == Len(hist) < MaxLen /\ (DoEcl \/ DoAdd \/ DoRemove \/ DoScale \/ DoFit \/ DoHill \/ DoLook)
Spec == Init /\ [][Next]_<<s, hist>>
View == <<s, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))

Inv == /\ (HasGradients(s) \/ HasFit(s)) => HasEclipse(s)
       /\ HasFit(s) => HasGradients(s) /\ s.fit[1] = FitOf(s.grads)
       /\ Len(s.grads) <= MaxGrads
       \* every mask hides the undefined point; masks only ever add
       /\ Comb(s) # {} => 3 \in Comb(s)
       /\ \A k \in 1..Len(s.grads) : Mask(s.grads[k]) \subseteq Comb(s)
       /\ HillMask(4, Radius) \subseteq HillMask(2, Radius)
       /\ \A p \in 1..3 : Shown(Radius, Comb(s))[p] \in {NAN, Radius[p]}
\* removing a gradient or loosening the hill radius uncovers no other point
Frame == [][ /\ (s'.hill = s.hill /\ Len(s'.grads) < Len(s.grads)) => Comb(s') \subseteq Comb(s)
             /\ (s'.fit = s.fit /\ HasFit(s)) => s'.grads = s.grads ]_<<s, hist>>
=============================================================================
