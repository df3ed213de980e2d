---- MODULE ZoneHeatGen ----
(* Every kind of heat balance: spaces, what reaches them, and targets that are missing or unknown. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Targets(n) == {<<>>} \cup {<<a>> : a \in -2..(n - 1)} \cup {<<a, b>> : a, b \in 0..(n - 1)}
Init == \E n \in 1..2 : x \in [spaces : {n}, surfaces : 0..1, fenestrations : {0}, volume : {TRUE}, inf : BOOLEAN, ven : BOOLEAN,
                               hvacs : Targets(n), lums : Targets(n)]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
NoVolume == [x EXCEPT !.volume = FALSE]
Emit == PrintT("SCN:" \o ToJson(x)) /\ (x.hvacs = <<>> /\ x.lums = <<>> => PrintT("SCN:" \o ToJson(NoVolume)))
====
