------------------------------- MODULE T_Maps -------------------------------
(* Recorded lives of a grid.  maps: every map that it has after the call, with *)
(* key (kind, and position of a gradient); st: the maps before, by key.        *)
EXTENDS Maps, TraceKit

Keys(maps) == {maps[k].key : k \in 1..Len(maps)}
Get(maps, key) == maps[CHOOSE k \in 1..Len(maps) : maps[k].key = key]
All(r, P(_)) == \A k \in 1..Len(r.maps) : P(r.maps[k])

New(r, st, m) == m.kind \in Made(r.op) \/ m.key \notin Keys(st)
\* the contrast that the user sets is judged by C28
Mine(r, m) == r.op = "contrast" /\ r.target = m.key
Kept(r, st, m) == Contrast(m) = Contrast(Get(st, m.key))
\* What a loaded map looks like: fresh, or as it was when it was saved
Fresh(m) == FreshLimits(m) /\ FreshColours(m)

Judge(r, st) ==
    [st |-> r.maps,
     fails |->
       Must("C30.maps", Basic \subseteq Keys(r.maps))
       \cup Must("C30.done", r.res = "ok" \/ r.op = "refuse")
       \cup Must("C30.name", All(r, LAMBDA m : m.name = NameOf[m.kind]))
       \cup Must("C30.unit", All(r, LAMBDA m : m.unit \in UnitOf[m.kind]))
       \cup Must("C30.coordinates", All(r, LAMBDA m : m.axes = r.axes /\ m.shape = r.shape))
       \cup Must("C30.limits", All(r, LAMBDA m : New(r, st, m) => FreshLimits(m)))
       \cup Must("C30.colours", All(r, LAMBDA m : New(r, st, m) => FreshColours(m)))
       \cup Must("C30.kept", All(r, LAMBDA m :
                (~New(r, st, m) /\ ~Mine(r, m)) =>
                    Kept(r, st, m) \/ (m.kind \in Either(r.op) /\ Fresh(m))))
       \cup Must("C30.drawn", \A k \in 1..Len(r.drawn) :
                LET d == r.drawn[k] IN
                d.key \in Keys(r.maps) => d.contrast = Contrast(Get(r.maps, d.key)))
       \* gradients sort by their positions (ranks)
       \cup Must("C30.order", \A k \in 1..(Len(r.sorted) - 1) : r.sorted[k] <= r.sorted[k + 1])]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
