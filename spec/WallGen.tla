---- MODULE WallGen ----
(* Every pair of boundaries around every kind of build, by tilt. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Init == x \in [spaces : {2}, surfaces : 0..1, fenestrations : {1}, hvacs : {<<>>}, lums : {<<>>},
               surf : [front : {"Space", "Outdoor", "Ambient"}, back : {"Space", "Outdoor", "Ambient", "Adiabatic"}, build : 0..6,
                       tilt : {0, 40, 90, 135, 180}, fh : {FALSE}, bh : {FALSE}]
                      \cup [front : {"Space", "Outdoor"}, back : {"Space", "Outdoor"}, build : {0, 1}, tilt : {90}, fh : BOOLEAN, bh : BOOLEAN]]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
