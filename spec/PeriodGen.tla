---- MODULE PeriodGen ----
(* Periods on the hour grid of the real year, biased to the boundaries that *)
(* the decision procedure distinguishes; each initial state is a scenario.  *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s, span, step
Starts == {0, 1, 12, 23, 24, 743, 744, 745, 1416, 4000, 8000, 8735, 8736, 8748, 8758, 8759}
Steps == {1, 2, 3, 5, 7, 12, 23, 24, 25, 36, 48, 100, 336}
Spans(st, d) == {0, 1, d - 1, d, d + 1, 2 * d, 3 * d - 1, 3 * d, 3 * d + 1, 5 * d,
                 8759, 8760 - d, 8760 - st - 1, 8760 - st, 8760 - st + 1, 8760 - st + d - 1}
Init == /\ s \in Starts /\ step \in Steps
        /\ span \in {x \in Spans(s, step) : x >= 0 /\ x < 8760 /\ x \div step < 700}
Next == UNCHANGED <<s, span, step>>
Spec == Init /\ [][Next]_<<s, span, step>>
Emit == PrintT("SCN:" \o ToJson(<<s, span, step>>))
====
