---- MODULE CloudsGen ----
(* Weather of some hours, put together record by record, for estimating radiation (C24) *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Rec(h) == [cloud |-> R({"none", "some", "some", "full"}), temp |-> R({"same", "up", "down", "any"}), hum |-> R({"dry", "any", "wet"}), wind |-> R({"calm", "any"}),
           dew |-> R({"cold", "mild", "edge", "warm", "hot"}), given |-> R({"zero", "like", "like", "like", "any", "full", "missing"}), pressure |-> R({"sea", "any"})]
Fill(h) == LET m == R({1, 2, 3, 5, 9, 16}) IN [mode |-> "fill", place |-> R({"tropic", "north", "south", "polar", "any"}), month |-> R(1..12), hour |-> R(0..23), step |-> R({30, 60, 60, 60, 180}), recs |-> [j \in 1..m |-> Rec(j)]]
Part(h) == [mode |-> "part", zen |-> R({0, 10, 24, 25, 26, 40, 41, 54, 56, 69, 71, 79, 81, 85, 89}), kt |-> R({-10, 0, 10, 23, 25, 39, 41, 55, 57, 60, 61, 69, 71, 79, 81, 95, 110}), dew |-> R({"cold", "mild", "edge", "warm", "hot"}),
            before |-> R({"none", "same", "near", "apart", "far"}), after |-> R({"none", "same", "near", "apart", "far"}), pressure |-> R({"sea", "any"})]
Init == n = 0 /\ sc = [mode |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ sc' = IF n % 4 = 0 THEN Fill(n) ELSE Part(n)
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
