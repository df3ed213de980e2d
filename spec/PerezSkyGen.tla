---- MODULE PerezSkyGen ----
(* Where the sun is and how clear the sky is, and what is asked of it. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Init == \E height \in {"night", "low", "middle", "high", "zenith"}, class \in 1..9, units \in {"solar", "visible"}, sky \in BOOLEAN, direct \in BOOLEAN, albedo \in {0, 20},
          again \in BOOLEAN, m \in 1..2 :
            x = [height |-> height, class |-> class, units |-> units, sky |-> sky, direct |-> direct, albedo |-> albedo, again |-> again, m |-> m]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
