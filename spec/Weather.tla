------------------------------- MODULE Weather -------------------------------
(* Looking up the weather at an instant of the (circular) year in a set of  *)
(* dated records (weather::Weather): the record itself if there is one at   *)
(* that instant, otherwise the linear interpolation between the previous    *)
(* record and the next one -- around new year, between the last and the     *)
(* first record of the year.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Year,          \* ticks in the model year
          MaxRecords
VARIABLES recs,          \* increasing sequence of positions in the year
          now            \* the instant asked for
wvars == <<recs, now>>
Ticks == 0..(Year - 1)

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Range(s) == {s[k] : k \in 1..Len(s)}
Init == recs = <<>> /\ now = 0
\* records are added in any order (+=) and sorted
Add(x) == /\ Len(recs) < MaxRecords /\ x \notin Range(recs)
          /\ recs' = Sorted(Range(recs) \cup {x}) /\ now' = now
Ask(x) == recs # <<>> /\ now' = x /\ recs' = recs
Next == \E x \in Ticks : Add(x) \/ Ask(x)
Spec == Init /\ [][Next]_wvars

N == Len(recs)
\* --- what a user expects: nearest neighbours on the circle
Dist(a, b) == (b - a) % Year
Prev == CHOOSE k \in 1..N : \A j \in 1..N : Dist(recs[k], now) <= Dist(recs[j], now)
Succ == CHOOSE k \in 1..N : \A j \in 1..N : Dist(now, recs[k]) <= Dist(now, recs[j])
\* --- what the implementation computes: binary search, then the border rule
Found == \E k \in 1..N : recs[k] = now
Insert == Cardinality({k \in 1..N : recs[k] < now})        \* 0..N
Border == Insert = 0 \/ Insert = N
BeforeIx == IF Border THEN N ELSE Insert
AfterIx == IF Border THEN 1 ELSE Insert + 1
\* fraction as <<numerator, denominator>>
Frac == IF Border THEN LET d == IF Insert = 0 THEN now + Year ELSE now
                       IN <<d - recs[N], recs[1] + Year - recs[N]>>
        ELSE <<now - recs[Insert], recs[Insert + 1] - recs[Insert]>>

Neighbours == recs # <<>> /\ ~Found => (BeforeIx = Prev /\ AfterIx = Succ)
Convex == recs # <<>> /\ ~Found => (Frac[1] >= 0 /\ Frac[1] <= Frac[2] /\ Frac[2] > 0)
FracOK == recs # <<>> /\ ~Found =>
    /\ Frac[1] = Dist(recs[Prev], now)
    /\ Frac[2] = IF N = 1 THEN Year ELSE Dist(recs[Prev], recs[Succ])
SortedOK == \A k \in 1..(N - 1) : recs[k] < recs[k + 1]
==============================================================================
