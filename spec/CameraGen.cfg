SPECIFICATION Spec
CONSTANTS Many = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
