SPECIFICATION GSpec
CONSTANTS MaxElems = 9
 Len0 = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
