---------------------------- MODULE MC_Contract ----------------------------
(* Every value that is tried for every argument of the interface, in every    *)
(* state of its object, and what it has to lead to.                           *)
EXTENDS Contract, TLC, Json
CONSTANTS Calls
VARIABLES object, call

Classes == {"Ring", "RingSystem", "GridParameters", "GridDiagnostics", "GridProperty",
            "GridGradient", "GridPropertyViewer", "ShallotGrid"}
States == {"plain", "eclipse", "gradients", "fit"}
Ctx == [outer |-> 25000, inner |-> 12000, last |-> 20000,
        max_x |-> 20000, min_x |-> -5000, max_y |-> 20000, min_y |-> -5000,
        n |-> 30000, last_slice |-> 10000, last_y |-> 20000, last_x |-> 10000, last_rf |-> 40000,
        last_gradient |-> 10000, shown |-> 60000, candidates |-> 50000]
StatesOf(row) == IF row.states = {} THEN {"any"} ELSE row.states
NONE == [row |-> 0, v |-> <<>>, state |-> "none"]
Init == object = [version |-> 0, refused |-> 0] /\ call = NONE

\* the number that a symbolic value stands for
Resolve(v) == [k |-> v.k, q |-> BoundOf(v.at, Ctx) + v.dq, e |-> v.e]
Numeric(row) == row.d.t = "number"
Symbolic(v) == v.k \in {"int", "float"}
Meaning(row, v) == IF ~(Numeric(row) /\ Symbolic(v)) THEN "other" ELSE Verdict(row.d, Resolve(v), Ctx)
Do == \E k \in 1..Len(Api) : \E v \in Tried(Api[k].d), s \in StatesOf(Api[k]) :
    LET m == Meaning(Api[k], v) IN
    /\ call' = [row |-> k, v |-> v, state |-> s]
    /\ \/ m # "no" /\ object' = [object EXCEPT !.version = @ + 1]
       \/ m # "yes" /\ object' = [object EXCEPT !.refused = @ + 1]
\* a call that leaves an argument out, twice: without it and with its default
Omit == \E k \in 1..Len(Defaults) : \E s \in StatesOf(Defaults[k]) :
    /\ call' = [row |-> k, v |-> Plain("omit"), state |-> s]
    /\ object' = [object EXCEPT !.version = @ + 1]
Next == object.version + object.refused < Calls /\ (Do \/ Omit)
Spec == Init /\ [][Next]_<<object, call>>
\* a call that is refused leaves the version of its object
Unchanged == [][object'.refused # object.refused => object'.version = object.version]_<<object, call>>
Emit == object.version + object.refused = 0 =>
    IF call'.v.k = "omit" THEN
        LET d == Defaults[call'.row] IN
        PrintT("EDGE " \o ToJson([m |-> d.m, p |-> d.p, v |-> [k |-> "omit"], default |-> d.v,
                                  other |-> d.other, state |-> call'.state]))
    ELSE LET row == Api[call'.row] IN
    PrintT("EDGE " \o ToJson([m |-> row.m, p |-> row.p, v |-> call'.v, state |-> call'.state]))

Inv == call # NONE /\ call.v.k # "omit" => LET row == Api[call.row] IN RowOf(row.m, row.p) = row
\* no argument is listed twice
ASSUME \A j, k \in 1..Len(Api) : j # k => <<Api[j].m, Api[j].p>> # <<Api[k].m, Api[k].p>>
\* every argument with a default is one of the interface, the two that have no
\* domain there excepted, and its default belongs to its domain
Domainless == {<<"RingSystem.merge_rings", "tolerance">>, <<"ShallotGrid.determine_gradient_fit", "weighted">>}
Named == [zero |-> [k |-> "int", q |-> 0, e |-> 0, plain |-> FALSE, cls |-> ""],
          two |-> [k |-> "int", q |-> 20000, e |-> 0, plain |-> FALSE, cls |-> ""],
          none |-> [k |-> "none", q |-> 0, e |-> 0, plain |-> FALSE, cls |-> ""],
          black |-> [k |-> "string", q |-> 0, e |-> 0, plain |-> TRUE, cls |-> ""],
          viridis |-> [k |-> "string", q |-> 0, e |-> 0, plain |-> TRUE, cls |-> ""],
          info |-> [k |-> "int", q |-> 200000, e |-> 0, plain |-> FALSE, cls |-> ""]]
              @@ ("true" :> [k |-> "bool"]) @@ ("false" :> [k |-> "bool"])
ASSUME \A k \in 1..Len(Defaults) : LET d == Defaults[k] IN
    \/ <<d.m, d.p>> \in Domainless
    \/ \E j \in 1..Len(Api) : /\ <<Api[j].m, Api[j].p>> = <<d.m, d.p>>
                             /\ d.v \in DOMAIN Named => Verdict(Api[j].d, Named[d.v], Ctx) = "yes"
\* for every number that has a bound, values on both of its sides are tried
ASSUME \A k \in 1..Len(Api) : LET row == Api[k] IN
    (Numeric(row) /\ Bounds(row.d) # {}) =>
        LET all == {Meaning(row, v) : v \in Tried(row.d)}
        IN "no" \in all /\ ("yes" \in all \/ ((row.d.soft \/ row.d.clo # <<>>) /\ "any" \in all))
\* bounds are where they are said to be
ASSUME \A k \in 1..Len(Api) : LET row == Api[k] IN Numeric(row) =>
    \A v \in {v \in Tried(row.d) : Symbolic(v)} :
        LET w == Resolve(v)
            out == \/ row.d.lo # <<>> /\ w.q < BoundOf(row.d.lo, Ctx)
                   \/ row.d.hi # <<>> /\ w.q > BoundOf(row.d.hi, Ctx)
        IN out => Meaning(row, v) = "no"
=============================================================================
