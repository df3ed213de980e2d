---- MODULE WeatherGen ----
(* Every set of records of the small year with every instant: scenarios.    *)
EXTENDS Weather, TLC, Json
EmitInit == now = 0 /\ \E S \in SUBSET Ticks : S # {} /\ Cardinality(S) <= MaxRecords /\ recs = Sorted(S)
GSpec == EmitInit /\ [][UNCHANGED wvars]_wvars
Emit == PrintT("SCN:" \o ToJson([year |-> Year, recs |-> recs]))
====
