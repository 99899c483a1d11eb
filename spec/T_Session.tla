----------------------------- MODULE T_Session -----------------------------
(* Recorded histories of calls on a real grid (see comp_session.py).  Values  *)
(* of maps are exact ranks over the whole session, measurements are BigNums   *)
(* with 3 fraction limbs (NaN and infinities are the empty sequence).         *)
(* base: the maps as built; post: what can be observed after the call.        *)
EXTENDS Session, TraceKit, BigNum

F == 3
FInt(n) == Shift(OfInt(n), F)
One == FInt(1)
Zero == <<0>>
FMul(a, b) == Trim(Norm(Drop(Mul(a, b), F)))
Fm3(a, b, c) == FMul(FMul(a, b), c)
PI == <<3590, 9265, 1415, 3>>
Tol(v) == Add(<<1000>>, Drop(Mul(<<0, 10>>, AbsB(v)), F))      \* 10^-9 + 10^-7 v
Near(a, b) == Close(a, b, Add(Tol(a), Tol(b)))
Num(v) == v # <<>>
InUnit(v) == Num(v) /\ Leq(Zero, v) /\ Leq(v, One)
Positive(v) == Num(v) /\ Less(Zero, v)

\* orbital scale = (6 - 2u) pi / (v (12 - 12u + 3 pi u)) = Up / Down
Up(e) == FMul(PI, Sub(FInt(6), FMul(FInt(2), e.u)))
Down(e) == FMul(e.v, Add(Sub(FInt(12), FMul(FInt(12), e.u)), Fm3(FInt(3), PI, e.u)))
IsScale(x, e) == Num(x) /\ Near(FMul(x, Down(e)), Up(e))
\* the scaled gradient meas scale / tc against 1: "ok", "steep" or "edge"
Against(left, right) == IF Near(left, right) THEN "edge"
                        ELSE IF Less(left, right) THEN "ok" ELSE "steep"
Steepness(meas, e, tc) == Against(FMul(meas, Up(e)), FMul(tc, Down(e)))
SteepnessBy(meas, scale, tc) == Against(FMul(meas, scale), tc)
\* of several: "steep" if one is, else "edge" if one is
Worst(set) == IF "steep" \in set THEN "steep" ELSE IF "edge" \in set THEN "edge" ELSE "ok"

MaskOf(g) == {g.mask[k] : k \in 1..Len(g.mask)}
MasksOf(gs) == [k \in 1..Len(gs) |-> MaskOf(gs[k])]
Comb(s, base) == Combined(s.hill, base.radius, MasksOf(s.grads))
Hill(s, base) == HillMask(s.hill, base.radius)

\* "yes": has to be accepted, "no": has to be rejected, "any": not specified
AcceptEcl(a) == IF a.wf /\ Num(a.d) /\ Num(a.v) /\ Leq(Zero, a.d) /\ Leq(Zero, a.v) /\ InUnit(a.u)
                THEN "yes" ELSE "no"
AcceptAdd(s, a) ==
    IF ~HasEclipse(s) THEN "yes"
    ELSE IF \/ ~a.wf
            \/ \E k \in 1..Len(a.meas) : ~Num(a.meas[k]) \/ ~Leq(Zero, a.meas[k])
            \/ \E k \in 1..Len(a.err) : ~Num(a.err[k]) \/ ~Leq(Zero, a.err[k])
            \/ \E k \in 1..Len(a.tc) : ~InUnit(a.tc[k])
         THEN "no"
    ELSE IF ~Positive(s.ecl[1].v) \/ \E k \in 1..Len(a.tc) : ~Positive(a.tc[k]) THEN "any"
    ELSE LET w == Worst({Steepness(a.meas[k], s.ecl[1], a.tc[k]) : k \in 1..Len(a.meas)})
         IN IF w = "steep" THEN "no" ELSE IF w = "edge" THEN "any" ELSE "yes"
AcceptRemove(s, a) ==
    IF ~HasGradients(s) THEN "yes"
    ELSE IF a.wf /\ \A k \in 1..Len(a.idx) : a.idx[k] \in 0..(Len(s.grads) - 1) THEN "yes"
    ELSE "no"
\* scale: v, u (<<>>: not given), tcs (given if a.hastc)
NewEcl(s, a) == [s.ecl[1] EXCEPT !.v = IF a.hasv THEN a.v ELSE @,
                                 !.u = IF a.hasu THEN a.u ELSE @]
NewTc(s, a, k) == IF a.hastc THEN a.tc[k] ELSE s.grads[k].tc
NothingGiven(a) == ~a.hasv /\ ~a.hasu /\ ~a.hastc
AcceptScale(s, a) ==
    IF \/ ~a.wf
       \/ a.hasv /\ (~Num(a.v) \/ ~Leq(Zero, a.v))
       \/ a.hasu /\ ~InUnit(a.u)
       \/ a.hastc /\ (Len(a.tc) # Len(s.grads) \/ \E k \in 1..Len(a.tc) : ~InUnit(a.tc[k]))
    THEN "no"
    ELSE IF NothingGiven(a) THEN "yes"
    ELSE IF ~Positive(NewEcl(s, a).v) \/ \E k \in 1..Len(s.grads) : ~Positive(NewTc(s, a, k))
    THEN "any"
    ELSE LET w == Worst({IF a.hasv \/ a.hasu
                         THEN Steepness(s.grads[k].meas, NewEcl(s, a), NewTc(s, a, k))
                         ELSE SteepnessBy(s.grads[k].meas, s.grads[k].scale, NewTc(s, a, k))
                         : k \in 1..Len(s.grads)})
         IN IF w = "steep" THEN "no" ELSE IF w = "edge" THEN "any" ELSE "yes"

Accept(r, s) == CASE r.op = "ecl" -> AcceptEcl(r.a)
                  [] r.op = "add" -> AcceptAdd(s, r.a)
                  [] r.op = "remove" -> AcceptRemove(s, r.a)
                  [] r.op = "scale" -> IF HasGradients(s) THEN AcceptScale(s, r.a) ELSE "any"
                  [] r.op = "hill" -> IF r.a.wf /\ Num(r.a.h) /\ Leq(Zero, r.a.h) THEN "yes" ELSE "no"
                  [] OTHER -> "any"

--------------------------------------------------------------------------
(* What an accepted call has to bring about *)
SameGradient(a, b) == a.pos = b.pos /\ a.meas = b.meas /\ a.err = b.err /\ a.tc = b.tc
                      /\ a.scale = b.scale /\ a.srank = b.srank /\ a.theo = b.theo
                      /\ MaskOf(a) = MaskOf(b)
OwnScaled(g) == /\ Num(g.scaled) /\ Num(g.scale) /\ Num(g.tc)
                /\ Near(FMul(g.scaled, g.tc), FMul(g.meas, g.scale))
OwnMask(g) == MaskOf(g) = SlopeMask(g.theo, g.srank)
NewGradient(g, s, a, k) ==
    /\ Near(FMul(g.pos, s.ecl[1].d), Neg(a.times[k]))
    /\ Near(g.meas, a.meas[k]) /\ Near(g.err, a.err[k]) /\ Near(g.tc, a.tc[k])
    /\ IsScale(g.scale, s.ecl[1]) /\ OwnScaled(g) /\ OwnMask(g)
Rescale(g, old, s, a, k) ==
    /\ g.pos = old.pos /\ g.meas = old.meas /\ g.err = old.err /\ g.theo = old.theo
    /\ Near(g.tc, NewTc(s, a, k))
    /\ IF a.hasv \/ a.hasu THEN IsScale(g.scale, NewEcl(s, a)) ELSE g.scale = old.scale
    /\ OwnScaled(g) /\ OwnMask(g)
Gone(a) == {a.idx[k] + 1 : k \in 1..Len(a.idx)}
AllSame(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : SameGradient(p[k], q[k])

\* the gradients of post against those that the call should have left
GradientsAfter(r, s, done) ==
    LET now == r.post.grads
        n == Len(s.grads)
    IN IF ~done THEN AllSame(now, s.grads)
       ELSE CASE r.op = "ecl" -> now = <<>>
              [] r.op = "add" /\ HasEclipse(s) ->
                    /\ Len(now) = n + Len(r.a.times)
                    /\ AllSame(SubSeq(now, 1, n), s.grads)
                    /\ \A k \in 1..Len(r.a.times) : NewGradient(now[n + k], s, r.a, k)
              [] r.op = "remove" /\ HasGradients(s) ->
                    AllSame(now, Without(s.grads, Gone(r.a), 1))
              [] r.op = "scale" /\ HasGradients(s) /\ ~NothingGiven(r.a) ->
                    /\ Len(now) = n
                    /\ \A k \in 1..n : Rescale(now[k], s.grads[k], s, r.a, k)
              [] OTHER -> AllSame(now, s.grads)

\* did the call change the gradients or their scaling: "yes", "no", "any"
Changes(r, s, done) ==
    IF ~done THEN "no"
    ELSE CASE r.op = "ecl" -> "yes"
           [] r.op = "add" -> IF ~HasEclipse(s) THEN "no" ELSE IF r.a.times = <<>> THEN "any" ELSE "yes"
           [] r.op = "remove" -> IF ~HasGradients(s) THEN "no" ELSE IF r.a.idx = <<>> THEN "any" ELSE "yes"
           [] r.op = "scale" -> IF NothingGiven(r.a) THEN "no" ELSE "yes"
           [] r.op = "fit" -> IF HasGradients(s) THEN "fit" ELSE "no"
           [] OTHER -> "no"

--------------------------------------------------------------------------
(* C22: fit = sum of ((t - m) inv)^2, where inv is 1 / e *)
Sq(v) == FMul(v, v)
RECURSIVE Misfit(_, _, _, _)
Misfit(gs, x, w, k) ==
    IF k > Len(gs) THEN Zero
    ELSE LET d == Sub(x.t[k], gs[k].scaled)
         IN Add(Sq(IF w THEN FMul(d, x.inv[k]) ELSE d), Misfit(gs, x, w, k + 1))
FitValue(gs, x, w) ==
    /\ w => \A k \in 1..Len(gs) : Near(FMul(x.inv[k], gs[k].err), One)
    /\ LET sum == Misfit(gs, x, w, 1)
       IN Close(sum, x.fit, Add(<<2000>>, Drop(Mul(<<0, 1>>, AbsB(sum)), F)))
FitDefined(gs, fit) == \A p \in 1..Len(fit) :
    (fit[p] = NAN) <=> (\E k \in 1..Len(gs) : gs[k].theo[p] = NAN)

--------------------------------------------------------------------------
(* Reads *)
HiddenBy(s, base, own, a) == (IF a.masked THEN Comb(s, base) ELSE {})
                             \cup (IF a.own THEN own ELSE {})
ReadOk(r, s, base) ==
    LET m == r.a.map
    IN IF ~r.a.wf THEN r.res # "ok"
       ELSE /\ r.res = "ok"
            /\ r.out.data = Shown(base[m],
                   HiddenBy(s, base, IF m = "radius" THEN Hill(s, base) ELSE {}, r.a))
GetGradientsOk(r, s, base) ==
    /\ r.res = "ok"
    /\ Len(r.out.pos) = Len(s.grads)
    /\ \A k \in 1..Len(s.grads) :
          /\ r.out.pos[k] = s.grads[k].pos
          /\ r.out.scaled[k] = s.grads[k].scaled
          /\ r.out.err[k] = s.grads[k].err
          /\ r.out.data[k] = Shown(s.grads[k].theo, HiddenBy(s, base, MaskOf(s.grads[k]), r.a))
GetFitOk(r, s, base) ==
    /\ r.res = "ok"
    /\ IF HasFit(s) THEN r.out.data = Shown(s.fit[1], HiddenBy(s, base, {}, r.a))
       ELSE r.out.data = <<>>

\* C23: sols are <<fit, radius, inclination, tilt, dx, dy>> as ranks
PointOf(base, fit, p) == << fit[p], base.radius[p], base.inclination[p], base.tilt[p],
                            base.dx[p], base.dy[p] >>
ExtractOk(r, s, base) ==
    LET c == Candidates(s.fit[1], Comb(s, base))
        n == IF r.a.all THEN Cardinality(c) ELSE r.a.n
        sols == r.out.sols
        pt == [p \in c |-> PointOf(base, s.fit[1], p)]
    IN /\ Len(sols) = n
       /\ \A k \in 1..Len(sols) : \E p \in c : pt[p] = sols[k]
       /\ \A k \in 1..Len(sols) :
             Cardinality({j \in 1..Len(sols) : sols[j] = sols[k]})
                <= Cardinality({p \in c : pt[p] = sols[k]})
       /\ \A k \in 2..Len(sols) : sols[k - 1][1] <= sols[k][1]
       \* what is left out is not better than the last
       /\ n > 0 => Cardinality({p \in c : s.fit[1][p] < sols[n][1]})
                      = Cardinality({k \in 1..n : sols[k][1] < sols[n][1]})
CanExtract(r, s, base) ==
    LET most == Cardinality(Candidates(s.fit[1], Comb(s, base)))
    IN r.a.wf /\ (r.a.all \/ r.a.n \in 0..most)

\* C25
Valid(r, base) == r.a.wf /\ r.a.y \in 0..(base.shape[1] - 1) /\ r.a.x \in 0..(base.shape[2] - 1)
                  /\ r.a.r \in 0..(base.shape[3] - 1)
PointOk(r, s, base) ==
    LET p == (r.a.y * base.shape[2] + r.a.x) * base.shape[3] + r.a.r + 1
        hidden == r.a.masked /\ p \in Comb(s, base)
        V(m) == IF hidden THEN NAN ELSE base[m][p]
        o == r.out
    IN /\ o.disk = << V("radius"), V("inclination"), V("tilt"), base.dx[p], base.dy[p] >>
       /\ o.grid = << base.rf[p], V("fx"), V("fy"), V("diag") >>
       /\ Len(o.pos) = Len(s.grads) /\ Len(o.grad) = Len(s.grads)
       /\ \A k \in 1..Len(s.grads) :
             /\ o.pos[k] = s.grads[k].pos
             /\ LET own == r.a.masked /\ p \in MaskOf(s.grads[k])
                IN IF own THEN o.grad[k] = NAN
                   ELSE o.grad[k] = s.grads[k].theo[p] \/ (hidden /\ o.grad[k] = NAN)

--------------------------------------------------------------------------
Resync(r, s, done) ==
    LET grads == r.post.grads
        fit == IF r.post.nofit THEN <<>> ELSE <<r.post.fit>>
        e == IF ~done THEN s.ecl
             ELSE CASE r.op = "ecl" -> << [d |-> r.a.d, v |-> r.a.v, u |-> r.a.u] >>
                    [] r.op = "scale" /\ HasEclipse(s) -> << NewEcl(s, r.a) >>
                    [] OTHER -> s.ecl
    IN [ecl |-> e, grads |-> grads, fit |-> fit,
        hill |-> IF done /\ r.op = "hill" THEN r.a.hrank ELSE s.hill]

MapsIn == {"read", "grads", "getfit", "extract", "point"}
Judge(r, st) ==
    IF r.op = "init"
    THEN [st |-> [base |-> r.base, s |-> Start],
          fails |-> Must("C19.init", r.post.grads = <<>> /\ r.post.nofit)
                    \cup Must("C20.init", r.post.comb = <<>>)]
    ELSE
    LET base == st.base
        s == st.s
        acc == Accept(r, s)
        done == r.res = "ok"
        next == Resync(r, s, done)
        ch == Changes(r, s, done)
        comb == {r.post.comb[k] : k \in 1..Len(r.post.comb)}
    IN [st |-> [st EXCEPT !.s = next],
        fails |->
          Must("C19.accepted", acc = "yes" /\ r.op # "hill" => done)
          \cup Must("C19.rejected", acc = "no" /\ r.op # "hill" => r.res \notin {"ok", "Timeout"})
          \cup Must("C20.hill_accepted", acc = "yes" /\ r.op = "hill" => done)
          \cup Must("C20.hill_rejected", acc = "no" /\ r.op = "hill" => ~done)
          \cup Must("C19.gradients", (r.op = "scale" /\ ~HasGradients(s) /\ r.post.grads = <<>>)
                                     \/ GradientsAfter(r, s, done))
          \cup Must("C19.fit_of_rejected", ~done => next.fit = s.fit)
          \cup Must("C20.combined", comb = Comb(next, base))
          \cup Must("C20.unmasked", r.post.radius = base.radius)
          \cup Must("C20.masked", r.post.mradius = Shown(base.radius, Comb(next, base)))
          \cup Must("C20.read", r.op = "read" => ReadOk(r, s, base))
          \cup Must("C20.get_gradients", r.op = "grads" /\ HasGradients(s)
                                            => GetGradientsOk(r, s, base))
          \cup Must("C20.get_fit", r.op = "getfit" => GetFitOk(r, s, base))
          \cup Must("C22.discarded", ch = "yes" => next.fit = <<>>)
          \cup Must("C22.kept", ch = "no" => next.fit = s.fit)
          \cup Must("C22.determined", ch = "fit" =>
                       /\ next.fit # <<>>
                       /\ FitDefined(s.grads, next.fit[1])
                       /\ \A k \in 1..Len(r.out.samples) :
                             FitValue(s.grads, r.out.samples[k], r.a.weighted))
          \cup Must("C22.accepted", r.op = "fit" => done)
          \cup Must("C22.shown", r.op = "getfit" => GetFitOk(r, s, base))
          \cup (IF r.op # "extract" \/ ~HasFit(s) THEN {}
                ELSE Must("C23.accepted", CanExtract(r, s, base) => done)
                     \cup Must("C23.rejected", ~CanExtract(r, s, base)
                                                  => r.res \notin {"ok", "Timeout"})
                     \cup Must("C23.solutions", (CanExtract(r, s, base) /\ done)
                                                   => ExtractOk(r, s, base))
                     \cup Must("C23.usable", done => r.out.usable))
          \cup Must("C23.unchanged", r.op = "extract" =>
                       /\ next.fit = s.fit /\ AllSame(next.grads, s.grads)
                       /\ comb = Comb(s, base) /\ r.post.radius = base.radius)
          \cup (IF r.op # "point" THEN {}
                ELSE Must("C25.accepted", Valid(r, base) => done)
                     \cup Must("C25.rejected", ~Valid(r, base) => r.res \notin {"ok", "Timeout"})
                     \cup Must("C25.data", (Valid(r, base) /\ done) => PointOk(r, s, base))
                     \cup Must("C25.unchanged",
                               /\ next.fit = s.fit /\ AllSame(next.grads, s.grads)
                               /\ comb = Comb(s, base) /\ r.post.radius = base.radius))]

VARIABLES l, st
TraceInit == l = 1 /\ st = [base |-> <<>>, s |-> Start]
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
