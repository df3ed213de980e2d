---- MODULE MCCalendar ----
EXTENDS Calendar
MCHours == {0, 6, 12, 18}
MCDays == 0..370 \cup {730, 731}
MCJumps == {0, 6, 18, 24, 30, 720, 8754, 8760, 8766}
====
