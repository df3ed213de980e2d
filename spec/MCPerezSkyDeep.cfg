SPECIFICATION Spec
CONSTANTS
 Place <- MCPlace
 Days <- MCDeepDays
 Minutes = 90
 Weathers <- MCWeathers
 Divisions = {1, 2}
INVARIANTS Night Positive Conserved Finer
CHECK_DEADLOCK FALSE
