SPECIFICATION Spec
CONSTANTS Many = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
