---- MODULE DiscretizationGen ----
(* Every order of kinds of layers, up to three; wrong ones too. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Kinds == {"thick", "thin", "light", "metal", "gas"}
Init == x \in [kinds : UNION {[1..k -> Kinds] : k \in 1..3}, n : {1, 4, 20}]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
