------------------------------ MODULE T_Report ------------------------------
(* Recorded reports: the state of the object (numbers as BigNums with three   *)
(* fraction limbs, NaN as the empty sequence) and the items of its report.    *)
EXTENDS Report, TraceKit, BigNum

Zero == <<0>>
HalfUnit(d) == CASE d = 2 -> <<0, 0, 50>> [] d = 4 -> <<0, 5000>> [] d = 9 -> <<500>>
                 [] d = 0 -> <<0>>
\* half a unit of the last decimal
Near(got, want, d) == IF want = <<>> \/ got = <<>> THEN want = got
                      ELSE Close(got, want, Add(HalfUnit(d), <<2>>))
Times(v, n) == Trim(Norm([k \in 1..Len(v) |-> v[k] * n]))
RECURSIVE SumOf(_, _, _)
SumOf(data, k, s) == IF k > Len(data) THEN s ELSE SumOf(data, k + 1, Add(s, data[k]))
Sorted(data) == \A k \in 1..(Len(data) - 1) : Leq(data[k], data[k + 1])
RECURSIVE Largest(_, _, _)
Largest(data, k, m) == IF k > Len(data) THEN m
                       ELSE Largest(data, k + 1, IF Leq(m, AbsB(data[k])) THEN AbsB(data[k]) ELSE m)

\* 10^-12 of the largest value: what summation may lose
Rel(data) == Drop(Largest(data, 1, Zero), 3)
MeanOk(got, data) ==
    IF data = <<>> THEN got = <<>>
    ELSE got # <<>> /\ LET n == Len(data)
             IN Close(Times(got, n), SumOf(data, 1, Zero),
                      Times(Add(HalfUnit(4), Add(<<2>>, Rel(data))), n))
MedianOk(got, data) ==
    IF data = <<>> THEN got = <<>>
    ELSE got # <<>> /\ LET n == Len(data)
             IN Close(Times(got, 2), Add(data[(n + 1) \div 2], data[(n \div 2) + 1]),
                      Times(Add(HalfUnit(4), Add(<<2>>, Rel(data))), 2))
PercentOk(got, n, all, d) ==
    got # <<>> /\ Close(Times(got, all), Times(<<0, 0, 0, 100>>, n), Times(Add(HalfUnit(d), <<2>>), all))
WorstOk(got, data) == IF data = <<>> THEN got = <<>>
                      ELSE Near(got, Largest(data, 1, Zero), 9)

Stated(got, want, d) ==
    CASE want.kind = "is" -> Near(got, want.x, d)
      [] want.kind = "count" -> got = <<0, 0, 0, want.x>> \/ Eq(got, Shift(OfInt(want.x), 3))
      [] want.kind = "mean" -> MeanOk(got, want.x)
      [] want.kind = "median" -> Sorted(want.x) /\ MedianOk(got, want.x)
      [] want.kind = "percent" -> PercentOk(got, want.x[1], want.x[2], d)
      [] want.kind = "worst" -> WorstOk(got, want.x)

Judge(r, st) ==
    LET want == ReportOf(r.cls, r.full, r.o)
        got == r.items
    IN [st |-> st, fails |->
          Must("C26.printed", r.res = "ok")
          \cup Must("C26.unchanged", r.pre = r.post)
          \cup Must("C26.repeatable", r.same)
          \cup IF r.res # "ok" THEN {}
               ELSE IF Len(got) # Len(want) \/ \E k \in 1..Len(want) :
                         \/ got[k].k # want[k].k
                         \/ got[k].txt # want[k].txt
                         \/ Len(got[k].nums) # Len(want[k].nums)
               THEN {"C26.items"}
               ELSE UNION {UNION {Must("C26." \o want[k].k,
                                       Stated(got[k].nums[j], want[k].nums[j], want[k].d))
                                  : j \in 1..Len(want[k].nums)}
                           : k \in 1..Len(want)}]

VARIABLES l, st
TraceInit == l = 1 /\ st = <<>>
TraceNext == /\ l <= Len(Recs)
             /\ LET j == Judge(Recs[l], st)
                IN Report(l, j.fails) /\ st' = j.st
             /\ Finish(l)
             /\ l' = l + 1
=============================================================================
