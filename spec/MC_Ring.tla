------------------------------- MODULE MC_Ring -------------------------------
(* Every assignment from every state of a small ring model.                   *)
EXTENDS Ring, TLC, Json
CONSTANT Part          \* "radii" or "angles"

\* names of the values and their ranks
Val == [m181 |-> 1, m180 |-> 2, m1 |-> 3, zero |-> 4, eps |-> 5, half |-> 6,
        one |-> 7, two |-> 8, ninety |-> 9, n91 |-> 10, p180 |-> 11,
        p181 |-> 12, nan |-> NAN, pinf |-> PINF, ninf |-> NINF, bad |-> BAD]
Names == DOMAIN Val
K == [zero |-> Val.zero, one |-> Val.one, ninety |-> Val.ninety,
      m180 |-> Val.m180, p180 |-> Val.p180, eps |-> Val.eps]

VARIABLES ring, hist
vars == <<ring, hist>>
View == ring

MyFields == IF Part = "radii" THEN {"inner", "outer"} ELSE {"trans", "inc", "tilt"}

Arg(a) == [f \in Fields |-> Val[a[f]]]
Start == [inner |-> "half", outer |-> "two", trans |-> "half", inc |-> "half",
          tilt |-> "half"]
Starts == IF Part = "radii"
          THEN {[Start EXCEPT !.inner = i, !.outer = o] : i \in Names, o \in Names}
          ELSE {[Start EXCEPT ![f] = v] : f \in MyFields, v \in Names}

Init == \E a \in Starts :
          /\ ring = IF MayBuild(Arg(a), K) THEN Built(Arg(a), K) ELSE NoRing
          /\ hist = <<[op |-> "new", args |-> a]>>
          /\ PrintT("EDGE " \o ToJson(hist))
Assign(f, n) ==
    LET v == Val[n] IN
    /\ ring # NoRing
    /\ ring' = IF MayAccept(ring, f, v, K) THEN Assigned(ring, f, v, K) ELSE ring
    /\ hist' = Append(hist, [op |-> "set", field |-> f, value |-> n])
Next == \E f \in MyFields, n \in Names : Assign(f, n)
Spec == Init /\ [][Next]_vars

Emit == PrintT("EDGE " \o ToJson(hist'))
Inv == ring # NoRing => RingInv(ring, K)
\* a rejected assignment stutters, an accepted one changes one parameter only
Frame == [][\/ ring' = ring
            \/ \E f \in Fields : \A g \in Fields \ {f} : ring'[g] = ring[g]]_vars
\* angles: continue only from a few values per parameter
Small == Part = "angles" =>
           /\ ring.trans \in {Val.zero, Val.half, Val.one, BAD}
           /\ ring.inc \in {Val.zero, Val.half, Val.ninety, BAD}
           /\ ring.tilt \in {Val.m180, Val.half, Val.p180, BAD}
=============================================================================
