SPECIFICATION TSpec
CONSTANTS HourGrid = {0}
 DayJumps = {0}
 HourJumps = {0}
