------------------------------- MODULE Report -------------------------------
(* What the printed reports say: a report is a sequence of items, each with a *)
(* label, a text, numbers, and the number of decimals it is printed with.     *)
(* Numbers are compared by the user of this module, so they are left opaque   *)
(* here; derived numbers (mean, median, percentages, the worst deviation)     *)
(* are named by what they are derived from.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Is(x) == [kind |-> "is", x |-> x]                  \* the number itself
Item(k, txt, d, nums) == [k |-> k, txt |-> txt, d |-> d, nums |-> nums]
Num(k, d, x) == Item(k, "", d, <<Is(x)>>)
Count(n) == [kind |-> "count", x |-> n]
MeanOf(data) == [kind |-> "mean", x |-> data]
MedianOf(data) == [kind |-> "median", x |-> data]
PercentOf(n, all) == [kind |-> "percent", x |-> <<n, all>>]
WorstOf(data) == [kind |-> "worst", x |-> data]

RingReport(o) == <<Num("Inner Radius", 4, o.inner), Num("Outer Radius", 4, o.outer),
                   Num("Transmission", 4, o.trans), Num("Inclination", 4, o.incl),
                   Num("Tilt", 4, o.tilt)>>

SystemReport(o) ==
    <<Num("Planet Radius", 2, o.planet), Num("Inclination", 2, o.incl), Num("Tilt", 2, o.tilt)>>
    \o [k \in 1..Len(o.inner) |->
          Item("ring", "", 2, <<Count(k), Is(o.inner[k]), Is(o.outer[k]), Is(o.trans[k])>>)]

ParamsReport(o) ==
    <<Item("dx", "", 2, <<Is(o.dx[1]), Is(o.dx[2]), Count(o.nx)>>),
      Item("dy", "", 2, <<Is(o.dy[1]), Is(o.dy[2]), Count(o.ny)>>),
      Item("rf", "", 2, <<Is(o.rf), Is(o.one), Is(o.rf), Count(2 * o.nr - 1)>>),
      Item("shape", "", 0, <<Count(o.ny), Count(o.nx), Count(2 * o.nr - 1)>>)>>

DiagnosticsReport(o) == <<Item("diagnostics saved", "", 0, <<Count(o.saved)>>)>>

\* o.mask is the number of masked points, or -1 without a mask
PropertyReport(o) ==
    <<Item("property", o.title, 4, o.at)>>
    \o <<Num("min value", 4, o.lo), Num("max value", 4, o.hi),
         Item("mean value", "", 4, <<MeanOf(o.data)>>),
         Item("median value", "", 4, <<MedianOf(o.data)>>)>>
    \o (IF o.mask = -1 THEN <<>>
        ELSE <<Item("mask [out]", "", 4, <<PercentOf(o.mask, o.size)>>)>>)
    \o (IF o.meas = <<>> THEN <<>>
        ELSE <<Num("measured gradient", 4, o.meas[1]), Num("measured error", 4, o.meas[2]),
               Num("orbital scale", 4, o.meas[3]), Num("transmission change", 4, o.meas[4])>>)

ViewerReport(o) == <<Item("title", o.title, 0, <<>>)>>

RECURSIVE Parts(_, _)
Parts(s, k) == IF k > Len(s) THEN <<>> ELSE PropertyReport(s[k]) \o Parts(s, k + 1)
GridReport(o) ==
    ParamsReport(o.params) \o Parts(o.maps, 1) \o Parts(o.grads, 1)
    \o (IF o.saved = -1 THEN <<>> ELSE DiagnosticsReport([saved |-> o.saved]))
    \o <<Item("percentage masked", "", 2, <<PercentOf(o.masked, o.size)>>),
         Item("worst interpolation fit", "", 9, <<WorstOf(o.diag)>>)>>

\* full: with the axes (str of a property)
ReportOf(cls, full, o) ==
    CASE cls = "ring" -> RingReport(o)
      [] cls = "system" -> SystemReport(o)
      [] cls = "params" -> ParamsReport(o)
      [] cls = "diagnostics" -> DiagnosticsReport(o)
      [] cls \in {"property", "gradient"} ->
            PropertyReport(o) \o (IF full THEN ParamsReport(o.params) ELSE <<>>)
      [] cls = "viewer" -> ViewerReport(o)
      [] cls = "grid" -> GridReport(o)
=============================================================================
