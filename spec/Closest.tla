------------------------------ MODULE Closest ------------------------------
(* The grid point that is closest to a disk: which points are candidates and  *)
(* which of them may be reported.  Dist2(p) and the order on distances are    *)
(* operators given by the user of this module.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* points: the defined points; hidden: masked ones
Searched(points, hidden, masked) == IF masked THEN points \ hidden ELSE points
\* side(p) and want are -1, 0 or 1; 0 lies on both sides
Beyond(side, want) == want # 0 /\ side = -want
RightSide(cand, Side(_), want) == {p \in cand : ~Beyond(Side(p), want)}
\* p may be reported: it is on the right side, and none there is nearer
MayReport(p, cand, Side(_), want, NotFarther(_, _)) ==
    LET good == RightSide(cand, Side, want)
    IN p \in good /\ \A q \in good : NotFarther(p, q)
=============================================================================
