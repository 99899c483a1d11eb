---------------------------- MODULE T_RingSystem ----------------------------
(* Conformance of recorded edits of (two) ring systems.  A record has         *)
(*   sys: index of the edited system, op, arguments, res, and for both        *)
(*   systems the observed rings posts[j] (radii in units, exact: whether they *)
(*   are whole units), geom: all rings have the system's inclination and tilt,*)
(*   num: get_num_rings; argsame/shared: the passed ring afterwards.          *)
EXTENDS RingSystem, TraceKit, BigNum

RECURSIVE Sum(_, _)
Sum(d, k) == IF k = 0 THEN 0 ELSE d[k] + Sum(d, k - 1)

\* Rings of histories with arbitrary reals also carry b, both radii as BigNums
\* (3 limbs of fraction); in other histories b is empty.
Fine(s) == \A k \in 1..Len(s) : Len(s[k].b) = 2
Edge == <<40>>                                   \* 4 10^-11
Times(a, n) == Mul(a, <<n>>)
\* the edge x is i + (o - i) * j / n
EdgeAt(x, ring, j, n) ==
    Close(Times(x, n), Add(Times(ring.b[1], n - j), Times(ring.b[2], j)), Times(Edge, n))
RECURSIVE FineSplit(_, _, _, _)
FineSplit(s, d, post, k) ==
    IF k > Len(s) THEN TRUE
    ELSE LET before == Sum(d, k - 1)
         IN /\ \A j \in 1..d[k] : /\ EdgeAt(post[before + j].b[1], s[k], j - 1, d[k])
                                  /\ EdgeAt(post[before + j].b[2], s[k], j, d[k])
            /\ FineSplit(s, d, post, k + 1)
\* everything but a split moves no edge
Edges(s) == UNION {{s[k].b[1], s[k].b[2]} : k \in 1..Len(s)}
FineResult(s, r, post) ==
    IF ~Fine(s \o r.rings \o post \o <<r.ring>>) THEN TRUE
    ELSE IF r.op = "split" THEN Len(post) = Sum(r.d, Len(r.d)) => FineSplit(s, r.d, post, 1)
    ELSE Edges(post) \subseteq Edges(s) \cup Edges(r.rings) \cup Edges(<<r.ring>>)

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SameRings(a, b, tol) ==
    /\ Len(a) = Len(b)
    /\ \A k \in 1..Len(a) : /\ Near(a[k].i, b[k].i, tol)
                            /\ Near(a[k].o, b[k].o, tol) /\ a[k].t = b[k].t

Valid(s, r) ==
    CASE r.op = "add"     -> r.wellformed /\ CanAdd(s, r.k, r.ring)
      [] r.op = "replace" -> r.wellformed /\ CanReplace(s, r.k, r.ring)
      [] r.op = "remove"  -> r.wellformed /\ CanRemove(s, r.k)
      [] r.op = "split"   -> r.wellformed /\ CanSplit(s, r.d)
      [] r.op = "merge"   -> s # <<>>
      [] OTHER            -> TRUE
Result(s, r) ==
    CASE r.op = "new"     -> r.rings
      [] r.op = "add"     -> Added(s, r.k, r.ring)
      [] r.op = "replace" -> Replaced(s, r.k, r.ring)
      [] r.op = "remove"  -> Removed(s, r.k)
      [] r.op = "split"   -> Split(s, r.d)
      [] r.op = "merge"   -> Merge(s, r.tol2)
      [] OTHER            -> s

\* no two rings of a system overlap, not by a last digit either
Apart(gaps) == \A k \in 1..Len(gaps) : gaps[k] >= 0

\* merging nothing is not specified further: rejected or without effect
Unspecified(s, r) == r.op = "merge" /\ s = <<>>

Judge(r, st, ap) ==
    LET s == IF r.op = "new" THEN <<>> ELSE st[r.sys]
        post == r.posts[r.sys]
        \* an index that is True or False (loose) may be refused like no number
        valid == Valid(s, r) /\ (r.loose => r.res = "ok")
        want == IF valid THEN Result(s, r) ELSE s
        other == 3 - r.sys
        oldOther == IF r.op = "new" /\ r.sys = 1 THEN <<>> ELSE st[other]
        profileOp == r.op \in {"split", "merge"}
        apart == [j \in 1..2 |-> Apart(r.gaps[j])]
    IN [st |-> r.posts, apart |-> apart,
        fails |->
          Must("C04.valid_accepted", valid => r.res = "ok")
          \cup Must("C04.invalid_rejected",
                    (~valid /\ ~Unspecified(s, r)) => r.res \notin {"ok", "Timeout"})
          \cup Must("C04.rejected_unchanged",
                    (~valid \/ r.res # "ok") => SameRings(post, s, 0))
          \cup Must("C04.list", (valid /\ r.res = "ok")
                                   => SameRings(post, want, r.tol))
          \cup Must("C04.edges", (valid /\ r.res = "ok" /\ r.op # "new")
                                   => FineResult(s, r, post))
          \cup Must("C04.ordered",
                    \A k \in 1..Len(post) :
                        /\ post[k].i < post[k].o
                        /\ k < Len(post) => post[k].o <= post[k + 1].i + r.tol)
          \cup Must("C04.overlap", r.op # "new" => (ap[r.sys] => apart[r.sys]))
          \cup Must("C04.exact", r.exact)
          \cup Must("C04.geometry", r.geom)
          \cup Must("C04.count", r.num = Len(post))
          \cup Must("C04.other_system", SameRings(r.posts[other], oldOther, 0))
          \cup Must("C04.caller_ring", r.argsame /\ ~r.shared)
          \cup (IF ~profileOp THEN {} ELSE
               Must("C05.accepted", valid => r.res = "ok")
               \cup Must("C05.rejected",
                         (~valid /\ ~Unspecified(s, r)) => r.res # "ok")
               \cup Must("C05.result", (valid /\ r.res = "ok")
                                          => SameRings(post, want, r.tol))
               \cup Must("C05.edges", (valid /\ r.res = "ok") => FineResult(s, r, post))
               \cup Must("C05.exact", r.exact))]

VARIABLES l, st, ap
TraceInit == l = 1 /\ st = <<<<>>, <<>>>> /\ ap = <<TRUE, TRUE>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st, ap)
                IN Report(l, j.fails) /\ st' = j.st /\ ap' = j.apart
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
