SPECIFICATION Spec
CONSTANTS
 Places <- MCPlaces
 Days <- MCDays
 StepMinutes = 4
INVARIANTS Unit EastWest NoonHeight DayTime PolarDay Mirror Clock Bounded Clear
PROPERTIES Climbs
CHECK_DEADLOCK FALSE
