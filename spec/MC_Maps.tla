------------------------------ MODULE MC_Maps ------------------------------
(* Every history of what may be done with a grid and the contrast of its maps *)
EXTENDS Maps, TLC, Json
CONSTANTS MaxLen
\* s.grads: sequence of gradients (TRUE: with the user's contrast), s.fit,
\* s.user: the other maps with the user's contrast, s.ecl: eclipse parameters
VARIABLES s, saved, hist
Built == [grads |-> <<>>, fit |-> FALSE, user |-> {}, ecl |-> FALSE]
None == [grads |-> <<>>, fit |-> FALSE, user |-> {"none"}, ecl |-> FALSE]
Init == s = Built /\ saved = None /\ hist = <<>>
Log(r) == hist' = Append(hist, r)
Op(op) == Log([op |-> op, kind |-> "-"])
NoFit(t) == [t EXCEPT !.fit = FALSE, !.user = @ \ {"fit"}]
Keep == UNCHANGED saved
Eclipse == s' = [NoFit(s) EXCEPT !.grads = <<>>, !.ecl = TRUE] /\ Keep /\ Op("eclipse")
Add == /\ s.ecl /\ Len(s.grads) < 3 /\ Keep /\ Op("add")
       /\ s' = [NoFit(s) EXCEPT !.grads = Append(@, FALSE)]
Remove == /\ s.grads # <<>> /\ Keep /\ Op("remove")
          /\ s' = [NoFit(s) EXCEPT !.grads = SubSeq(@, 2, Len(@))]
Rescale == s.grads # <<>> /\ s.ecl /\ s' = NoFit(s) /\ Keep /\ Op("rescale")
Fit == s.grads # <<>> /\ s' = [s EXCEPT !.fit = TRUE, !.user = @ \ {"fit"}] /\ Keep /\ Op("fit")
Quiet == \E op \in {"hill", "read", "draw", "refuse", "diagnose"} :
    /\ (op = "refuse" => s.ecl)
    /\ s' = (IF op = "diagnose" THEN [s EXCEPT !.user = @ \ {"deviation"}] ELSE s) /\ Keep /\ Op(op)
Colour == \/ \E k \in Present(s) : s' = [s EXCEPT !.user = @ \cup {k}] /\ Keep
                                   /\ Log([op |-> "contrast", kind |-> k])
          \/ /\ s.grads # <<>> /\ s' = [s EXCEPT !.grads[Len(s.grads)] = TRUE] /\ Keep
             /\ Log([op |-> "contrast", kind |-> "gradient"])
Save == saved' = s /\ UNCHANGED s /\ Op("save")
Load == /\ saved # None /\ Keep /\ Op("load")
        /\ s' = [Built EXCEPT !.grads = [k \in 1..Len(saved.grads) |-> FALSE]]
Next == Len(hist) < MaxLen /\ (Eclipse \/ Add \/ Remove \/ Rescale \/ Fit \/ Quiet \/ Colour \/ Save \/ Load)
Spec == Init /\ [][Next]_<<s, saved, hist>>
View == <<s, saved, Len(hist)>>
Emit == PrintT("EDGE " \o ToJson(hist'))
Inv == /\ s.user \subseteq Present(s)
       /\ s.fit => s.grads # <<>>
\* the user's contrast is only lost with its map
Op_(h) == h[Len(h)].op
KeptThm == [][hist' # hist /\ Made(Op_(hist')) # Kinds =>
    s.user \ s'.user \subseteq Made(Op_(hist')) \cup Either(Op_(hist')) \cup {"fit"}]_<<s, saved, hist>>
=============================================================================
