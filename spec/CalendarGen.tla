---- MODULE CalendarGen ----
(* Behaviours of Calendar, printed as operation sequences for the harness. *)
EXTENDS Calendar, TLC, Json
CONSTANT Len0
VARIABLE hist
GHours == 0..23
GDays == {0, 1, 2, 27, 28, 29, 30, 31, 59, 60, 89, 200, 224, 225, 226, 254, 255, 256, 257, 260, 286, 300, 333, 334, 363, 364, 365, 366, 400, 729, 730, 1000}
GJumps == {0, 1, 7, 23, 24, 25, 47, 48, 49, 100, 720, 744, 5400, 6143, 6144, 6145, 8736, 8759, 8760, 8761, 10000, 17520}
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < Len0
         /\ \/ \E n \in DayJumps : AddDays(n) /\ hist' = Append(hist, <<"d", n, clock'>>)
            \/ \E n \in HourJumps : AddHours(n) /\ hist' = Append(hist, <<"h", n, clock'>>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Len0 => PrintT("SCN:" \o ToJson(hist))
====
