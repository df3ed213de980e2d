------------------------------ MODULE Calendar ------------------------------
(* The year-less calendar of SIMPLE (crate `calendar`): a date is a month,  *)
(* a day of that month and a decimal hour; a year has 365 days and dates    *)
(* wrap around it.  The specification has two descriptions of the clock:    *)
(* the fields that the implementation keeps (walked month by month), and    *)
(* the ordinal position in the year that users reason with.                 *)
EXTENDS Integers, Sequences, Flt

DaysIn == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
YearDays == 365

RECURSIVE Before(_)
Before(m) == IF m = 1 THEN 0 ELSE Before(m - 1) + DaysIn[m - 1]
BeforeTable == [m \in 1..12 |-> Before(m)]

ValidDay(m, d) == m \in 1..12 /\ d \in 1..DaysIn[m]
Ordinal(m, d) == BeforeTable[m] + d - 1                \* 0..364
MonthOf(n) == CHOOSE m \in 1..12 : BeforeTable[m] <= n /\ (m = 12 \/ n < BeforeTable[m + 1])
DayOf(n) == n - BeforeTable[MonthOf(n)] + 1

(* Walking month by month: the algorithm behind Date::add_days *)
RECURSIVE Walk(_, _, _)
Walk(m, d, n) ==
    IF d + n <= DaysIn[m] THEN <<m, d + n>>
    ELSE Walk(IF m = 12 THEN 1 ELSE m + 1, 1, d + n - DaysIn[m] - 1)

-----------------------------------------------------------------------------
(* Real-valued dates: [m |-> , d |-> , h |-> ] with h a float *)
Doy(x) == FAdd(Ordinal(x.m, x.d), FDiv(x.h, 24))
ValidDate(x) == /\ ValidDay(x.m, x.d)
                /\ FLe("-1e-7", x.h) /\ FLt(x.h, 24)
\* two positions in the (circular) year agree
SameInstant(a, b) ==
    LET r == FMod(FSub(a, b), 365) IN FLe(r, "1e-8") \/ FLe("364.99999999", r)

\* x' is x shifted by `days` (a float, >= 0)
Shifted(x, y, days) == ValidDate(y) /\ SameInstant(Doy(y), FAdd(Doy(x), days))
\* ... by a whole number of days: exact
ShiftedDays(x, y, n) ==
    /\ ValidDay(y.m, y.d)
    /\ FEq(y.h, x.h)
    /\ Ordinal(y.m, y.d) = (Ordinal(x.m, x.d) + n) % YearDays

(* chronological order within a year *)
Earlier(x, y) == \/ Ordinal(x.m, x.d) < Ordinal(y.m, y.d)
                 \/ Ordinal(x.m, x.d) = Ordinal(y.m, y.d) /\ FLt(x.h, y.h)
SameDate(x, y) == x.m = y.m /\ x.d = y.d /\ FEq(x.h, y.h)

-----------------------------------------------------------------------------
(* The state machine: one date, advanced by the operations of the crate.    *)
CONSTANTS HourGrid,        \* the hours of the day visited by the model
          DayJumps, HourJumps
VARIABLES month, day, hour,   \* the fields
          clock               \* the abstract clock: hours since Jan 1st, 00:00
vars == <<month, day, hour, clock>>

Init == /\ month = 1 /\ day = 1 /\ hour = 0 /\ clock = 0

AddDays(n) ==
    /\ LET w == Walk(month, day, n % YearDays) IN month' = w[1] /\ day' = w[2]
    /\ hour' = hour
    /\ clock' = (clock + 24 * n) % (24 * YearDays)

AddHours(n) ==
    /\ LET total == hour + (n % 24)
           w == Walk(month, day, ((n \div 24) % YearDays))
           u == IF total >= 24 THEN Walk(w[1], w[2], 1) ELSE w
       IN month' = u[1] /\ day' = u[2] /\ hour' = total % 24
    /\ clock' = (clock + n) % (24 * YearDays)

Next == \/ \E n \in DayJumps : AddDays(n)
        \/ \E n \in HourJumps : AddHours(n)
Spec == Init /\ [][Next]_vars

TypeOK == ValidDay(month, day) /\ hour \in HourGrid /\ clock \in 0..(24 * YearDays - 1)
\* the fields and the abstract clock never part
Agree == 24 * Ordinal(month, day) + hour = clock
\* from_day_of_year / day_of_year are inverse
Bijective == /\ MonthOf(clock \div 24) = month
             /\ DayOf(clock \div 24) = day
\* the real-valued view agrees with the integer one
RealView == FNear(Doy([m |-> month, d |-> day, h |-> hour]), FDiv(clock, 24))
=============================================================================
