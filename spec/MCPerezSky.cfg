SPECIFICATION Spec
CONSTANTS
 Place <- MCPlace
 Days <- MCDays
 Minutes = 160
 Weathers <- MCWeathers
 Divisions = {1}
INVARIANTS Night Positive Conserved Finer
CHECK_DEADLOCK FALSE
