SPECIFICATION Spec
CONSTANTS Records <- R
INVARIANTS Numbers Night Whole Sorted Shape Dimmer
CHECK_DEADLOCK FALSE
