---------------------------- MODULE WeatherTrace ----------------------------
(* Recorded look-ups on weather::Weather and SyntheticWeather.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Flt
Cal == INSTANCE Calendar WITH HourGrid <- {}, DayJumps <- {}, HourJumps <- {},
                              month <- 0, day <- 0, hour <- 0, clock <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, w          \* w: the event that installed the data in force
tvars == <<i, w>>
E == Trace[i + 1]
Event(op) == i < Len(Trace) /\ E.op = op /\ i' = i + 1
Ok == E.res = "ok"
Init == i = 0 /\ w = 0

Data == Trace[w].data          \* sequence of [m, d, h, v (10 floats), ir]
N == Len(Data)
NotAfter(k, x) == ~Cal!Earlier(x, Data[k])
K(x) == Cardinality({k \in 1..N : NotAfter(k, x)})
SameAll(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A k \in 1..Len(a) : FClose(a[k], b[k], tol, tol)
IrSame(a, b, tol) == IF a = "none" \/ b = "none" THEN a = b ELSE FClose(a, b, tol, tol)

\* sorting yields the same records in chronological order
Perm(a, b) == /\ Len(a) = Len(b)
              /\ \A k \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[k]}) = Cardinality({j \in 1..Len(b) : b[j] = a[k]})
InOrder(s) == \A k \in 1..(Len(s) - 1) : ~Cal!Earlier(s[k + 1], s[k])
Install == Event("data") /\ E.new /\ w' = i + 1
SortData == Event("sort") /\ Ok /\ Perm(Data, E.data) /\ InOrder(E.data) /\ w' = i + 1
Concat == Event("concat") /\ Ok /\ E.data = Data \o E.more /\ w' = i + 1

Circ(a, b) == FMod(FSub(b, a), 365)
Lookup ==
    /\ Event("lookup") /\ Ok /\ w' = w
    /\ LET x == E.date
           k == K(x)
           o == E.out
           before == IF k = 0 THEN N ELSE k
           after == IF k = N THEN 1 ELSE k + 1
           b == Data[before]
           a == Data[after]
           t == FDiv(Circ(Cal!Doy(b), Cal!Doy(x)), Circ(Cal!Doy(b), Cal!Doy(a)))
           lin(p, q) == FAdd(p, FMul(t, FSub(q, p)))
           exact == k > 0 /\ Cal!SameDate(Data[k], x)
       IN IF exact \/ N = 1
          THEN SameAll(o.v, b.v, "1e-9") /\ IrSame(o.ir, b.ir, "1e-9") /\ (exact => Cal!SameDate(o, x))
          ELSE /\ \A f \in 1..Len(o.v) : FClose(o.v[f], lin(b.v[f], a.v[f]), "1e-6", "1e-6")
               /\ \A f \in 1..Len(o.v) :      \* never outside the two neighbours
                    /\ FLe(FSub(FMin(b.v[f], a.v[f]), "1e-6"), o.v[f])
                    /\ FLe(o.v[f], FAdd(FMax(b.v[f], a.v[f]), "1e-6"))
               /\ IF b.ir = "none" \/ a.ir = "none" THEN o.ir = "none"
                  ELSE o.ir # "none" /\ FClose(o.ir, lin(b.ir, a.ir), "1e-6", "1e-6")
               /\ Cal!ValidDate(o)
               /\ Cal!SameInstant(Cal!Doy(o), Cal!Doy(x))
\* a synthetic weather returns its schedules, or the documented default
Defaults == <<"0", "0", "0", "0", "0", "0", "0", "0", "0.5", "101300">>
Synthetic ==
    /\ Event("synthetic") /\ Ok /\ w' = w
    /\ Cal!SameDate(E.out, E.date)
    /\ \A f \in 1..10 : FEq(E.out.v[f], IF E.sched[f] = "none" THEN Defaults[f] ELSE E.sched[f])
    /\ E.out.ir = E.ir \/ (E.ir # "none" /\ E.out.ir # "none" /\ FEq(E.out.ir, E.ir))
Done == i = Len(Trace) /\ UNCHANGED tvars
Next == Install \/ SortData \/ Concat \/ Lookup \/ Synthetic \/ Done
Spec == Init /\ [][Next]_tvars
==============================================================================
