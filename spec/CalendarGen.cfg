SPECIFICATION GSpec
CONSTANTS HourGrid <- GHours
 DayJumps <- GDays
 HourJumps <- GJumps
 Len0 = 10
INVARIANTS Emit Agree
CHECK_DEADLOCK FALSE
