SPECIFICATION Spec
CONSTANTS Many = 70
INVARIANT Emit
CHECK_DEADLOCK FALSE
