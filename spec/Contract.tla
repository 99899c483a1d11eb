------------------------------ MODULE Contract ------------------------------
(* The documented domain of every argument of the public interface, as a      *)
(* table, and what a value means for it: "yes" it has to be accepted, "no" it *)
(* has to be refused, "any" is not specified.                                 *)
(* Numbers are whole multiples of 10^-4 (q), with e = -1 or 1 for the next    *)
(* floating point number below or above.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* ---- domains.  A bound is <<>>, <<"is", q>> or <<"of", name>>: a quantity  *)
(* of the object (its number of rings, its axes, ...).                        *)
Is(q) == <<"is", q>>
Of(name) == <<"of", name>>
Number(int, lo, lox, hi, hix) ==
    [t |-> "number", int |-> int, lo |-> lo, lox |-> lox, hi |-> hi, hix |-> hix,
     opt |-> FALSE, soft |-> FALSE, clo |-> <<>>, chi |-> <<>>]
Real(lo, hi) == Number(FALSE, lo, FALSE, hi, FALSE)
Whole(lo, hi) == Number(TRUE, lo, FALSE, hi, FALSE)
Index(n) == Whole(Is(0), Of(n))
AnyReal == Real(<<>>, <<>>)
\* acceptance is demanded between these only
Within(d, lo, hi) == [d EXCEPT !.clo = lo, !.chi = hi]
Optional(d) == [d EXCEPT !.opt = TRUE]
Boolean == [t |-> "bool", opt |-> FALSE]
Text == [t |-> "string", opt |-> FALSE]
Object(c) == [t |-> "object", cls |-> c, opt |-> FALSE]
\* an array: element type, dimensions, least and largest element, its shape
Array(dtype, ndim, lo, hi, shape) ==
    [t |-> "array", dtype |-> dtype, ndim |-> ndim, lo |-> lo, hi |-> hi,
     shape |-> shape, soft |-> FALSE, opt |-> FALSE]
Floats(lo, hi, n) == Array("float64", 1, lo, hi, n)
\* values within their bounds may still not go with the others
Soft(d) == [d EXCEPT !.soft = TRUE]
Either(a, b) == [t |-> "either", a |-> a, b |-> b, opt |-> FALSE]

(* ---- the interface: method, argument, domain, the names of which a refusal *)
(* has to tell one ({}: none demanded), the states in which it is called      *)
Row(m, p, d) == [m |-> m, p |-> p, d |-> d, told |-> {p}, states |-> {}]
Tell(r, told) == [r EXCEPT !.told = told]
In(r, states) == [r EXCEPT !.states = states]

Zero == Is(0)
One == Is(10000)
Unit == Real(Zero, One)
Tilt == Real(Is(-1800000), Is(1800000))
Inclination == Real(Zero, Is(900000))
Level == Whole(Is(100000), Is(500000))

RingApi == <<
    Tell(Row("Ring", "inner_radius", Number(FALSE, Zero, FALSE, Of("outer"), TRUE)), {"inner_radius", "outer_radius"}),
    Tell(Row("Ring", "outer_radius", Number(FALSE, Of("inner"), TRUE, <<>>, FALSE)), {"inner_radius", "outer_radius"}),
    Row("Ring", "transmission", Unit),
    Row("Ring", "inclination", Inclination),
    Row("Ring", "tilt", Tilt),
    Row("Ring.set", "inner_radius", Number(FALSE, Zero, FALSE, Of("outer"), TRUE)),
    Row("Ring.set", "outer_radius", Number(FALSE, Of("inner"), TRUE, <<>>, FALSE)),
    Row("Ring.set", "transmission", Unit),
    Row("Ring.set", "inclination", Inclination),
    Row("Ring.set", "tilt", Tilt),
    Row("Ring.get_patch", "x_shift", AnyReal),
    Row("Ring.get_patch", "y_shift", AnyReal),
    Row("Ring.get_patch", "face_color", Text) >>

SystemApi == <<
    Row("RingSystem", "planet_radius", Real(Zero, <<>>)),
    Row("RingSystem", "inner_radii", Soft(Floats(Zero, <<>>, "radii"))),
    Row("RingSystem", "outer_radii", Soft(Floats(Zero, <<>>, "radii"))),
    Row("RingSystem", "transmissions", Floats(Zero, One, "radii")),
    Row("RingSystem", "inclination", Inclination),
    Row("RingSystem", "tilt", Tilt),
    Row("RingSystem", "logging_level", Level),
    Row("RingSystem.add_ring", "index", Soft(Index("n"))),
    Row("RingSystem.add_ring", "ring", Object("Ring")),
    Row("RingSystem.replace_ring", "index", Soft(Index("last"))),
    Row("RingSystem.replace_ring", "ring", Object("Ring")),
    Row("RingSystem.remove_ring", "index", Index("last")),
    Row("RingSystem.split_rings", "num_divisions",
        Either(Whole(Is(20000), <<>>), Array("int64", 1, One, <<>>, "rings"))),
    Row("RingSystem.plot", "ax", Optional(Object("Axes"))),
    Row("RingSystem.plot", "x_shift", AnyReal),
    Row("RingSystem.plot", "y_shift", AnyReal),
    Row("RingSystem.plot", "face_color", Text) >>

ParametersApi == <<
    Tell(Row("GridParameters", "min_x", Number(FALSE, <<>>, FALSE, Of("max_x"), TRUE)), {"min_x", "max_x"}),
    Tell(Row("GridParameters", "max_x", Number(FALSE, Of("min_x"), TRUE, <<>>, FALSE)), {"min_x", "max_x"}),
    Row("GridParameters", "num_x", Whole(One, <<>>)),
    Tell(Row("GridParameters", "min_y", Number(FALSE, <<>>, FALSE, Of("max_y"), TRUE)), {"min_y", "max_y"}),
    Tell(Row("GridParameters", "max_y", Number(FALSE, Of("min_y"), TRUE, <<>>, FALSE)), {"min_y", "max_y"}),
    Row("GridParameters", "num_y", Whole(One, <<>>)),
    Row("GridParameters", "max_rf", Real(One, <<>>)),
    Row("GridParameters", "num_rf", Whole(One, <<>>)),
    Row("GridParameters.save", "directory", Text),
    Row("GridParameters.load", "directory", Text),
    Row("GridDiagnostics", "grid_parameters", Object("GridParameters")),
    Row("GridDiagnostics.get_diagnostic", "y", Index("last_y")),
    Row("GridDiagnostics.get_diagnostic", "x", Index("last_x")),
    Row("GridDiagnostics.save_diagnostic", "y", Index("last_y")),
    Row("GridDiagnostics.save_diagnostic", "x", Index("last_x")),
    Row("GridDiagnostics.save_diagnostic", "fy", Floats(<<>>, <<>>, "curve")),
    Row("GridDiagnostics.save_diagnostic", "disk_radius", Floats(<<>>, <<>>, "curve")),
    Row("GridDiagnostics.save", "directory", Text),
    Row("GridDiagnostics.load", "directory", Text) >>

PropertyApi == <<
    Row("GridProperty", "name", Object("GridPropertyName")),
    Row("GridProperty", "unit", Object("GridPropertyUnit")),
    Row("GridProperty", "data", Array("float64", 3, <<>>, <<>>, "grid")),
    Row("GridProperty", "grid_parameters", Object("GridParameters")),
    Row("GridProperty.set_mask", "mask", Array("bool", 3, <<>>, <<>>, "grid")),
    Row("GridProperty.get_data", "masked", Boolean),
    Row("GridProperty.set_contrast_parameters", "vmin", Optional(AnyReal)),
    Row("GridProperty.set_contrast_parameters", "vmax", Optional(AnyReal)),
    Row("GridProperty.set_contrast_parameters", "color_map", Optional(Text)),
    Row("GridProperty.set_contrast_parameters", "num_colors", Optional(Whole(Is(20000), <<>>))),
    Row("GridProperty.plot_slice", "axis", Whole(Zero, Is(20000))),
    Row("GridProperty.plot_slice", "index", Optional(Index("last_slice"))),
    Row("GridProperty.plot_slice", "ax", Optional(Object("Axes"))),
    Row("GridProperty.plot_slice", "masked", Boolean),
    Row("GridProperty.plot_cube", "axis", Whole(Zero, Is(20000))),
    Row("GridProperty.plot_cube", "coordinates", Optional(Object("list"))),
    Row("GridProperty.plot_cube", "masked", Boolean),
    Row("GridProperty.save", "directory", Text),
    Row("GridProperty.load", "directory", Text),
    Row("GridProperty.load", "name", Object("GridPropertyName")),
    Row("GridProperty.load", "unit", Object("GridPropertyUnit")),
    Row("GridGradient", "data", Array("float64", 3, <<>>, <<>>, "grid")),
    Row("GridGradient", "grid_parameters", Object("GridParameters")),
    Row("GridGradient", "position", AnyReal),
    Row("GridGradient.determine_mask", "measured_gradient", Within(Real(Zero, <<>>), Zero, Is(3000))),
    Row("GridGradient.determine_mask", "orbital_scale", Within(Real(Zero, <<>>), Zero, One)),
    Row("GridGradient.determine_mask", "transmission_change", Optional(Within(Unit, Is(5000), One))),
    Row("GridGradient.determine_mask", "measured_error", Optional(Real(Zero, <<>>))),
    Row("GridPropertyViewer", "ax", Object("Axes")),
    Row("GridPropertyViewer", "axis", Whole(Zero, Is(20000))),
    Row("GridPropertyViewer", "grid_property", Object("GridProperty")),
    Row("GridPropertyViewer", "masked", Boolean),
    Row("GridPropertyViewer", "index", Optional(Index("last_slice"))),
    Row("GridPropertyViewer", "frozen", [Boolean EXCEPT !.opt = TRUE]),
    Row("GridPropertyViewer", "coordinates", Optional(Object("list"))) >>

Maps == << "get_disk_radius", "get_inclination", "get_tilt", "get_fx_map",
           "get_fy_map", "get_diagnostic_map" >>
RECURSIVE MapRows(_)
MapRows(k) == IF k > Len(Maps) THEN <<>> ELSE
    << Row("ShallotGrid." \o Maps[k], "masked", Boolean),
       Tell(Row("ShallotGrid." \o Maps[k], "property_masked", Boolean), {"masked", "property_masked"}) >>
    \o MapRows(k + 1)
HasEclipse == {"eclipse", "gradients", "fit"}
HasGradients == {"gradients", "fit"}
GridApi == <<
    Row("ShallotGrid", "parameters", Object("GridParameters")),
    Row("ShallotGrid", "num_fxfy", Within(Whole(One, <<>>), Is(1000000), <<>>)),
    Row("ShallotGrid", "logging_level", Level),
    Row("ShallotGrid", "keep_diagnostics", Boolean),
    Row("ShallotGrid", "intermittent_saving", Boolean),
    Row("ShallotGrid.save", "directory", Text),
    Row("ShallotGrid.load", "directory", Text),
    Row("ShallotGrid.load", "logging_level", Level),
    Row("ShallotGrid.set_eclipse_parameters", "eclipse_duration", Real(Zero, <<>>)),
    Row("ShallotGrid.set_eclipse_parameters", "transverse_velocity", Real(Zero, <<>>)),
    Row("ShallotGrid.set_eclipse_parameters", "limb_darkening", Unit),
    In(Row("ShallotGrid.add_gradients", "times", Floats(<<>>, <<>>, "new")), HasEclipse),
    In(Row("ShallotGrid.add_gradients", "light_curve_gradients", Soft(Floats(Zero, <<>>, "new"))), HasEclipse),
    In(Row("ShallotGrid.add_gradients", "light_curve_gradient_errors", Optional(Floats(Zero, <<>>, "new"))), HasEclipse),
    In(Tell(Row("ShallotGrid.add_gradients", "transmission_changes", Optional(Soft(Floats(Zero, One, "new")))),
       {"transmission_change", "transmission_changes"}), HasEclipse),
    In(Row("ShallotGrid.remove_gradients", "indices", Array("int64", 1, Zero, Of("last_gradient"), "")), HasGradients),
    In(Row("ShallotGrid.update_gradient_scaling", "transverse_velocity",
           Optional(Within(Real(Zero, <<>>), Is(500000), <<>>))), HasGradients),
    In(Row("ShallotGrid.update_gradient_scaling", "limb_darkening", Optional(Unit)), HasGradients),
    In(Tell(Row("ShallotGrid.update_gradient_scaling", "transmission_changes",
                Optional(Soft(Floats(Zero, One, "gradients")))),
            {"transmission_change", "transmission_changes"}), HasGradients),
    In(Row("ShallotGrid.get_gradients", "masked", Boolean), HasGradients),
    Tell(In(Row("ShallotGrid.get_gradients", "property_masked", Boolean), HasGradients), {"masked", "property_masked"}),
    In(Row("ShallotGrid.get_gradient_fit", "masked", Boolean), {"fit"}),
    Tell(In(Row("ShallotGrid.get_gradient_fit", "property_masked", Boolean), {"fit"}), {"masked", "property_masked"}),
    In(Row("ShallotGrid.extract_solutions", "num_solutions",
           Optional(Within(Index("shown"), Zero, Of("candidates")))), {"fit"}),
    Row("ShallotGrid.generate_hill_radius_mask", "hill_radius", Real(Zero, <<>>)),
    Row("ShallotGrid.determine_closest_grid_point", "disk_radius", Real(Zero, <<>>)),
    Row("ShallotGrid.determine_closest_grid_point", "inclination", Inclination),
    Row("ShallotGrid.determine_closest_grid_point", "tilt", Tilt),
    Row("ShallotGrid.determine_closest_grid_point", "impact_parameter", AnyReal),
    Row("ShallotGrid.determine_closest_grid_point", "masked", Boolean),
    Row("ShallotGrid.get_grid_point_data", "y_index", Index("last_y")),
    Row("ShallotGrid.get_grid_point_data", "x_index", Index("last_x")),
    Row("ShallotGrid.get_grid_point_data", "rf_index", Index("last_rf")),
    Row("ShallotGrid.get_grid_point_data", "masked", Boolean) >> \o MapRows(1)

Api == RingApi \o SystemApi \o ParametersApi \o PropertyApi \o GridApi
RowOf(m, p) == LET k == CHOOSE k \in 1..Len(Api) : Api[k].m = m /\ Api[k].p = p IN Api[k]

(* ---- arguments that may be left out, and the documented value that leaving *)
(* them out means: a call without the argument is the call with that value.   *)
(* other: a value of which the call tells a difference in some state.         *)
Default(m, p, v, other) == [m |-> m, p |-> p, v |-> v, other |-> other, states |-> {}]
Flags(m, masked) == << Default(m, "masked", masked, IF masked = "true" THEN "false" ELSE "true"),
                       Default(m, "property_masked", "true", "false") >>
RECURSIVE MapDefaults(_)
MapDefaults(k) == IF k > Len(Maps) THEN <<>>
                  ELSE Flags("ShallotGrid." \o Maps[k], "true") \o MapDefaults(k + 1)
DefaultsIn(q, states) == [k \in 1..Len(q) |-> [q[k] EXCEPT !.states = states]]
Defaults == <<
    Default("Ring", "inclination", "zero", "base"),
    Default("Ring", "tilt", "zero", "base"),
    Default("Ring.get_patch", "x_shift", "zero", "base"),
    Default("Ring.get_patch", "y_shift", "zero", "base"),
    Default("Ring.get_patch", "face_color", "black", "red"),
    Default("RingSystem", "logging_level", "info", "debug"),
    Default("RingSystem.merge_rings", "tolerance", "millionth", "tenth"),
    Default("RingSystem.plot", "x_shift", "zero", "base"),
    Default("RingSystem.plot", "y_shift", "zero", "base"),
    Default("RingSystem.plot", "face_color", "black", "red"),
    Default("RingSystem.plot", "ax", "current axes", "other axes"),
    Default("GridProperty.get_data", "masked", "true", "false"),
    Default("GridProperty.set_contrast_parameters", "vmin", "none", "base"),
    Default("GridProperty.set_contrast_parameters", "vmin", "least", "base"),
    Default("GridProperty.set_contrast_parameters", "vmax", "none", "base"),
    Default("GridProperty.set_contrast_parameters", "vmax", "greatest", "base"),
    Default("GridProperty.set_contrast_parameters", "color_map", "none", "base"),
    Default("GridProperty.set_contrast_parameters", "color_map", "viridis", "base"),
    Default("GridProperty.set_contrast_parameters", "num_colors", "none", "base"),
    Default("GridProperty.plot_slice", "ax", "current axes", "other axes"),
    Default("GridProperty.plot_slice", "masked", "true", "false"),
    Default("GridProperty.plot_cube", "axis", "two", "zero"),
    Default("GridProperty.plot_cube", "masked", "true", "false"),
    Default("GridProperty.plot_cube", "coordinates", "none", "base"),
    Default("GridGradient.determine_mask", "transmission_change", "none", "base"),
    Default("GridGradient.determine_mask", "measured_error", "none", "base"),
    Default("GridPropertyViewer", "index", "none", "zero"),
    Default("GridPropertyViewer", "frozen", "false", "true"),
    Default("GridPropertyViewer", "coordinates", "none", "base"),
    Default("ShallotGrid", "logging_level", "info", "debug"),
    Default("ShallotGrid", "keep_diagnostics", "false", "true"),
    Default("ShallotGrid", "intermittent_saving", "false", "true"),
    Default("ShallotGrid.load", "logging_level", "info", "debug"),
    Default("ShallotGrid.determine_closest_grid_point", "masked", "true", "false"),
    Default("ShallotGrid.get_grid_point_data", "masked", "true", "false") >>
    \o MapDefaults(1)
    \o DefaultsIn(<<
    Default("ShallotGrid.add_gradients", "light_curve_gradient_errors", "none", "base"),
    Default("ShallotGrid.add_gradients", "transmission_changes", "none", "base") >>, HasEclipse)
    \o DefaultsIn(<<
    Default("ShallotGrid.update_gradient_scaling", "transverse_velocity", "none", "base"),
    Default("ShallotGrid.update_gradient_scaling", "limb_darkening", "none", "base"),
    Default("ShallotGrid.update_gradient_scaling", "transmission_changes", "none", "base"),
    Default("ShallotGrid.determine_gradient_fit", "weighted", "true", "false") >>
    \o Flags("ShallotGrid.get_gradients", "false"), HasGradients)
    \o DefaultsIn(<< Default("ShallotGrid.extract_solutions", "num_solutions", "none", "base") >>
    \o Flags("ShallotGrid.get_gradient_fit", "true"), {"fit"})

(* ---- what a value means for a domain; ctx gives the quantities of the object *)
BoundOf(b, ctx) == IF b[1] = "is" THEN b[2] ELSE ctx[b[2]]
\* is (q, e) below, at or above a bound
Cmp(v, b) == IF v.q < b \/ (v.q = b /\ v.e < 0) THEN -1
             ELSE IF v.q = b /\ v.e = 0 THEN 0 ELSE 1
Above(v, lo, x, ctx) == lo = <<>> \/ Cmp(v, BoundOf(lo, ctx)) > 0
                        \/ (~x /\ Cmp(v, BoundOf(lo, ctx)) = 0)
Below(v, hi, x, ctx) == hi = <<>> \/ Cmp(v, BoundOf(hi, ctx)) < 0
                        \/ (~x /\ Cmp(v, BoundOf(hi, ctx)) = 0)
\* one number against bounds: nan is in none, infinities only in missing ones
InBounds(v, d, lox, hix, ctx) ==
    CASE v.k = "nan" -> IF d.lo = <<>> /\ d.hi = <<>> THEN "any" ELSE "no"
      [] v.k = "inf" -> IF d.hi = <<>> THEN "any" ELSE "no"
      [] v.k = "-inf" -> IF d.lo = <<>> THEN "any" ELSE "no"
      [] OTHER -> IF Above(v, d.lo, lox, ctx) /\ Below(v, d.hi, hix, ctx) THEN "yes" ELSE "no"
NumberVerdict(d, v, ctx) ==
    IF v.k \in {"bool", "unsigned"} THEN "any"
    ELSE IF v.k \notin {"int", "float", "nan", "inf", "-inf"} THEN "no"
    ELSE IF d.int /\ v.k # "int" THEN "no"
    ELSE LET in == InBounds(v, d, d.lox, d.hix, ctx)
         IN IF in = "yes" /\ d.soft THEN "any"
            ELSE IF in = "yes" /\ ~(Above(v, d.clo, FALSE, ctx) /\ Below(v, d.chi, FALSE, ctx))
            THEN "any" ELSE in
Worst(vs) == IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"
ArrayVerdict(d, v, ctx) ==
    IF v.k # "array" THEN "no"
    ELSE IF v.dtype # d.dtype \/ Len(v.shape) # d.ndim THEN "no"
    ELSE IF d.shape # "" /\ v.shape # ctx[d.shape] THEN "no"
    ELSE Worst({InBounds(v.els[k], d, FALSE, FALSE, ctx) : k \in 1..Len(v.els)}
               \cup {IF d.soft THEN "any" ELSE "yes"})
RECURSIVE Verdict(_, _, _)
Verdict(d, v, ctx) ==
    IF v.k = "none" THEN IF d.opt THEN "yes" ELSE "no"
    ELSE CASE d.t = "number" -> NumberVerdict(d, v, ctx)
           [] d.t = "bool" -> IF v.k = "bool" THEN "yes" ELSE IF v.k = "npbool" THEN "any" ELSE "no"
           [] d.t = "string" -> IF v.k = "string" THEN (IF v.plain THEN "yes" ELSE "any") ELSE "no"
           [] d.t = "object" -> IF v.cls = d.cls THEN "yes" ELSE "no"
           [] d.t = "array" -> ArrayVerdict(d, v, ctx)
           [] d.t = "either" -> IF v.k = "array" THEN Verdict(d.b, v, ctx) ELSE Verdict(d.a, v, ctx)

(* ---- the values that are tried for a domain: [k, at, dq, e], a number of   *)
(* kind k at dq from a bound, or a value of another kind                      *)
Value(k, at, dq, e) == [k |-> k, at |-> at, dq |-> dq, e |-> e]
Plain(k) == Value(k, <<>>, 0, 0)
Bounds(d) == {b \in {d.lo, d.hi} : b # <<>>}
AtBound(b, int) ==
    {Value("int", b, dq, 0) : dq \in {-10000, 0, 10000}}
    \cup IF int THEN {Value("float", b, 0, 0)}
         ELSE {Value("float", b, dq, 0) : dq \in {-7500, -1, 0, 1}}
              \cup {Value("float", b, 0, e) : e \in {-1, 1}}
Kinds == {"none", "string", "list", "object", "array0"}
NumbersFor(d) == UNION {AtBound(b, d.int) : b \in Bounds(d)}
    \cup {Plain(k) : k \in Kinds \cup {"nan", "inf", "-inf", "bool", "unsigned", "base"}}
    \cup (IF d.int THEN {Plain("half")} ELSE {})
ElementsFor(d) == {[Value("element", b, dq, e) EXCEPT !.k = "element"] :
                      b \in Bounds(d), dq \in {-1, 0, 1, -10000, 10000}, e \in {-1, 0, 1}}
ArraysFor(d) == {Plain(k) : k \in {"base", "none", "string", "aslist", "object", "dtype", "more",
                                   "fewer", "short", "long"}}
    \cup {x \in ElementsFor(d) : x.e = 0 \/ x.dq = 0}
    \cup (IF Bounds(d) = {} THEN {} ELSE {Plain("elnan"), Plain("elinf"), Plain("el-inf")})
RECURSIVE Tried(_)
Tried(d) == CASE d.t = "number" -> NumbersFor(d)
              [] d.t = "bool" -> {Plain(k) : k \in {"true", "false", "zero", "one", "npbool"} \cup Kinds}
              [] d.t = "string" -> {Plain(k) : k \in {"base", "one", "bytes", "bool"} \cup (Kinds \ {"string"})}
              [] d.t = "object" -> {Plain(k) : k \in {"base", "one", "class", "other"} \cup Kinds}
              [] d.t = "array" -> ArraysFor(d)
              [] d.t = "either" -> Tried(d.a) \cup Tried(d.b)
=============================================================================
