SPECIFICATION Spec
CONSTANTS Many = 100
INVARIANT Emit
CHECK_DEADLOCK FALSE
