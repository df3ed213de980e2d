---- MODULE SunGen ----
(* Where, when and in which time the sun is looked for. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE x
Init == \E lat \in {-80, -66, -45, -23, -8, 0, 5, 23, 38, 52, 66, 78}, season \in 1..12, kind \in {"solar", "standard", "date", "solardate"}, offset \in {-25, -5, 0, 9},
          moment \in {"midnight", "night", "before rise", "after rise", "morning", "noon", "afternoon", "before set", "after set", "evening"} :
            x = [lat |-> lat, season |-> season, kind |-> kind, offset |-> offset, moment |-> moment]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == PrintT("SCN:" \o ToJson(x))
====
