--------------------------- MODULE MC_Diagnostics ---------------------------
EXTENDS Diagnostics, TLC, Json
CONSTANTS NY, NX, Vals
VARIABLE s
Init == s = Empty(NY, NX)
Points == (-1..(2 * NY)) \X (-1..(2 * NX))
DoStore == \E p \in Points, v \in Vals :
    /\ s' = IF CanStore(s, p[1], p[2]) THEN Store(s, p[1], p[2], v) ELSE s
    /\ (p[1] \in -1..NY /\ p[2] \in -1..NX) =>
         PrintT("EDGE " \o ToJson([op |-> "store", pre |-> s, y |-> p[1],
                                   x |-> p[2], v |-> v]))
DoExtend == s' = Extend(s) /\ PrintT("EDGE " \o ToJson([op |-> "extend", pre |-> s]))
DoReload == s' = s /\ PrintT("EDGE " \o ToJson([op |-> "reload", pre |-> s]))
Next == DoStore \/ DoExtend \/ DoReload
Spec == Init /\ [][Next]_s

\* an extended read is symmetric, and agrees with the quadrant where they meet
Inv == \A p \in Points :
    LET q == <<2 * (NY - 1) - p[1], p[2]>>
        t == <<p[1], 2 * (NX - 1) - p[2]>>
    IN /\ s.ext => /\ Read(s, p[1], p[2]) = Read(s, q[1], q[2])
                   /\ Read(s, p[1], p[2]) = Read(s, t[1], t[2])
       /\ In(s, p[1], p[2]) =>
            Read(Extend(s), p[1] + NY - 1, p[2] + NX - 1)
              = Read([s EXCEPT !.ext = FALSE], p[1], p[2])
\* a store changes one point, and nothing once extended
Frame == [][/\ s.ext => s' = s
            /\ \A p, q \in (1..NY) \X (1..NX) :
                 (s'.map[p[1]][p[2]] # s.map[p[1]][p[2]] /\
                  s'.map[q[1]][q[2]] # s.map[q[1]][q[2]]) => p = q]_s
=============================================================================
