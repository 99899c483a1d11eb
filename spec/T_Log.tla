------------------------------- MODULE T_Log -------------------------------
(* r: [t ("rings", "grid"), op, res, level, a (arguments), before, after      *)
(* (states, tables for rings), got (messages; numbers in 10^-6 where they are *)
(* not counts), tables (the before and after parts of each table message),    *)
(* near (printed numbers with what they should be), random (numpy's random    *)
(* state was left alone)].                                                    *)
EXTENDS Log, TraceKit

\* equal up to the printed two decimals
Abs(v) == IF v < 0 THEN -v ELSE v
Two(a, b) == Abs(a - b) <= 5001
SameNumbers(k, m, n) ==
    /\ Len(m) = Len(n)
    /\ \A j \in 1..Len(m) : IF k \in {"inclination", "tilt"} THEN Two(m[j], n[j])
                            ELSE m[j] = n[j]
SameMessages(got, want, k) ==
    LET g == OfKind(got, k)
        w == OfKind(want, k)
    IN /\ Len(g) = Len(w)
       /\ \A j \in 1..Len(g) : g[j].lv = w[j].lv /\ SameNumbers(k, g[j].n, w[j].n)
Agree(got, want, kinds) == \A k \in kinds : SameMessages(got, want, k)

SameTable(t, rings) ==
    /\ Len(t) = Len(rings)
    /\ \A j \in 1..Len(t) : /\ t[j][1] = j
                            /\ \A c \in 1..3 : Two(t[j][c + 1], rings[j][c])

GridKinds == {"row", "adding", "missing", "dropped", "none", "fitting", "nothing",
              "nofit", "extracting", "unchanged", "cleared"}

RingFails(r) ==
    LET want == IF r.res # "ok" THEN <<>>
                ELSE If(r.op \in {"add", "replace"}, Overrides(r.sys, r.a))
                     \o Change(r.op, r.a, Len(r.before), Len(r.after))
        all == Passes(want, r.level)
        tables == r.tables
        debug == r.level <= DEBUG /\ r.res = "ok" /\ Change(r.op, r.a, 0, 0) # <<>>
    IN Must("C27.change", Agree(r.got, all, RingKinds))
       \cup Must("C27.override", Agree(r.got, all, {"inclination", "tilt"}))
       \cup Must("C27.tables",
              IF ~debug THEN tables = <<>>
              ELSE /\ Len(tables) = 1
                   /\ tables[1].lv = DEBUG
                   /\ SameTable(tables[1].before, r.before)
                   /\ SameTable(tables[1].after, r.after))
GridFails(r) ==
    LET want == Passes(If(r.res = "ok", GridChange(r.op, r.a, r.before, r.after))
                       \o Discarded(r.before, r.after), r.level)
    IN Must("C27.grid", IF r.res = "ok" THEN Agree(r.got, want, IF r.op = "eclipse" /\ r.before.grads = 0
                                                                 THEN GridKinds \ {"dropped"} ELSE GridKinds)
                        ELSE Agree(r.got, want, {"cleared", "dropped"}))
Judge(r) ==
    (IF r.t = "rings" THEN RingFails(r) ELSE GridFails(r))
    \cup Must("C27.level", \A k \in 1..Len(r.got) : r.got[k].lv >= r.level)
    \cup Must("C27.numbers",
              \A k \in 1..Len(r.near) : Abs(r.near[k].got - r.near[k].want) <= r.near[k].tol)
    \cup Must("C27.random", r.random)

VARIABLES l
TraceInit == l = 1
TraceNext == /\ l <= Len(Recs)
             /\ Report(l, Judge(Recs[l]))
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
