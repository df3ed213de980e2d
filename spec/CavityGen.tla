---- MODULE CavityGen ----
(* Every gas, in every regime of the correlations: tilt classes, thin and thick, warm front and warm back. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Init == x \in [gas : {"Air", "Argon", "Krypton", "Xenon"}, deg : {0, 20, 45, 59, 60, 61, 75, 89, 90, 91, 110, 150, 179, 180},
               mm : {4, 12, 30, 100}, height : {1, 3}, tf : {-10, 15, 20}, dT : {-40, -8, -1, 0, 1, 8, 40}, e : {<<84, 84>>, <<10, 84>>, <<84, 5>>}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
