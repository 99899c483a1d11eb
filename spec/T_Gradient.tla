----------------------------- MODULE T_Gradient -----------------------------
(* C10 records: [op, res, wf, x, exact, units, args, post]                    *)
(* x: the measurement in the units of Gradient.tla (exact, or rounded and     *)
(* then well away from a scaled gradient of 1); units: the data in these      *)
(* units; args: <<m, o, t, e>> as ranks, in the order of post.attr.           *)
(* lo, hi: ranks of the bounds of m*o/t in exact arithmetic (equal if exact).  *)
(* post: [data, read, mask, attr, scaled (all ranks), obs: the observed       *)
(* scaled gradient in units of 1/65536].                                      *)
EXTENDS Gradient, TraceKit

Empty == [data |-> <<>>, mask |-> <<>>, attr |-> <<>>, scaled |-> -3]
Within(a, b, t) == a - b <= t /\ b - a <= t

Judge(r, st) ==
    LET p == r.post
        valid == r.wf /\ Valid(r.x)
        set == r.op = "set"
        good == set /\ r.res = "ok"
        obs == [data |-> p.data, mask |-> p.mask, attr |-> p.attr,
                scaled |-> p.scaled]
    IN [st |-> obs,
        fails |->
          Must("C10.accepted", (set /\ valid) => r.res = "ok")
          \cup Must("C10.rejected", (set /\ ~valid)
                                       => r.res \notin {"ok", "Timeout"})
          \cup Must("C10.rejected_unchanged",
                    (set /\ r.res # "ok") => obs = st)
          \cup Must("C10.data", r.op # "new" => p.data = st.data)
          \cup Must("C10.read", p.read = p.data)
          \cup Must("C10.unmeasured", (r.op = "new") =>
                      p.mask = <<>> /\ p.scaled = -2 /\ p.attr = <<-2, -2, -2, -2>>)
          \cup Must("C10.measurement", good => p.attr = r.args)
          \cup Must("C10.scaled_exactly", good =>
                      r.lo <= p.scaled /\ p.scaled <= r.hi)
          \cup Must("C10.scaled", good => p.scaled >= 0
                  /\ Within(p.obs * r.x.t, ScaledTimesT(r.x),
                            IF r.exact THEN r.x.t
                            ELSE ScaledTimesT(r.x) \div 10 + r.x.t))
          \* the mask, against the scaled gradient and against the measurement
          \cup Must("C10.mask", good =>
                 /\ Len(p.mask) = Len(p.data)
                 /\ \A k \in 1..Len(p.data) :
                      p.mask[k] = (p.data[k] = NAN \/ p.data[k] < p.scaled))
          \cup Must("C10.mask_of_measurement", (good /\ r.exact) =>
                 p.mask = Mask(r.units, r.x))
          \cup Must("C10.other", r.op \in {"override", "touch"} =>
                 p.attr = st.attr /\ p.scaled = st.scaled)]

VARIABLES l, st
TraceInit == l = 1 /\ st = Empty
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
