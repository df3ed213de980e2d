---- MODULE DomeGen ----
(* A division, a row and a place within one of its patches (in twentieths of its height and width). *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Init == \E m \in 1..6, r \in 0..42, a \in {0, 1, 10, 19, 20}, z \in {-10, -9, 0, 9, 10} : r <= 7 * m /\ x = [m |-> m, row |-> r, a |-> a, z |-> z]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
