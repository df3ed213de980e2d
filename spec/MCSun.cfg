SPECIFICATION Spec
CONSTANTS
 Places <- MCPlaces
 Days <- MCDays
 StepMinutes = 20
INVARIANTS Unit EastWest NoonHeight DayTime PolarDay Mirror Clock Bounded Clear
PROPERTIES Climbs
CHECK_DEADLOCK FALSE
