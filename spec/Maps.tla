-------------------------------- MODULE Maps --------------------------------
(* The maps of a grid: each has the name and unit of its quantity, and a      *)
(* contrast (limits, colour map, number of colours) that is fresh when the    *)
(* map is made and the user's afterwards.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Basic == {"radius", "inclination", "tilt", "fx", "fy", "deviation"}
Kinds == Basic \cup {"gradient", "fit"}
NameOf == [radius |-> "Disk Radius", inclination |-> "Inclination", tilt |-> "Tilt",
           fx |-> "Fx Map", fy |-> "Fy Map", deviation |-> "Diagnostic Map",
           gradient |-> "Gradient", fit |-> "Gradient Fit"]
\* the unit of the deviation is not specified
UnitOf == [radius |-> {"Eclipse Duration"}, inclination |-> {"Degree"}, tilt |-> {"Degree"},
           fx |-> {"None"}, fy |-> {"None"}, gradient |-> {"None"}, fit |-> {"None"},
           deviation |-> {"None", "Eclipse Duration"}]
\* a tilt of 180 degrees is one of 0: its colours have to meet
Cyclic(kind) == kind = "tilt"

\* limits are ranks, -1 is undefined: a fresh map shows all of its data
FreshLimits(m) == m.lo = m.min /\ m.hi = m.max
FreshColours(m) == m.cyclic = Cyclic(m.kind)
Contrast(m) == [lo |-> m.lo, hi |-> m.hi, map |-> m.map, n |-> m.n]

\* Which maps an operation makes anew (of those that exist afterwards); all
\* others keep their contrast.  A map that did not exist before is always new.
Made(op) == CASE op \in {"build", "load", "resume"} -> Kinds
              [] op = "fit" -> {"fit"}
              [] OTHER -> {}
\* the contrast of these may also be fresh or kept
Either(op) == IF op = "diagnose" THEN {"deviation"} ELSE {}

(* ---- the design: which maps there are (gradients by identity) and whose    *)
(* contrast is the user's                                                     *)
Present(s) == Basic \cup (IF s.fit THEN {"fit"} ELSE {})
=============================================================================
