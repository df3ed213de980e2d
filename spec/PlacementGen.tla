---- MODULE PlacementGen ----
(* Transformations put together step by step, alone or placing a shape (C23). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Many
VARIABLES n, sc
R(S) == RandomElement(S)
Step(h) == LET k == R({"turn", "turn", "shift", "shift", "scale", "size", "mirror"}) IN <<k, R(1..3)>>
Steps(h, m) == [j \in 1..m |-> Step(j)]
Kinds == {"transform", "transform", "sphere", "cylinder", "tube", "disk", "triangle", "plane", "source"}
Init == n = 0 /\ sc = [kind |-> "none"]
Next == /\ n < Many /\ n' = n + 1
        /\ \E k \in {<<"transform", "sphere", "cylinder", "tube", "disk", "triangle", "transform", "sphere", "cylinder", "tube", "disk", "triangle", "plane", "source">>[(n % 14) + 1]} :
           \E m \in {IF k = "transform" THEN R(1..6) ELSE IF k \in {"sphere", "cylinder", "disk"} THEN R({0, 1, 1, 2, 3, 4}) ELSE 0} :
             sc' = [kind |-> k, ops |-> Steps(n, m), part |-> R(BOOLEAN), id |-> R(1..100000)]
Spec == Init /\ [][Next]_<<n, sc>>
Emit == n > 0 => PrintT("SCN:" \o ToJson(sc))
====
