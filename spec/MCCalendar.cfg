SPECIFICATION Spec
CONSTANTS HourGrid <- MCHours
 DayJumps <- MCDays
 HourJumps <- MCJumps
INVARIANTS TypeOK Agree Bijective RealView
CHECK_DEADLOCK FALSE
