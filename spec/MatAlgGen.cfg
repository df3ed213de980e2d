SPECIFICATION GSpec
CONSTANT Len0 = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
