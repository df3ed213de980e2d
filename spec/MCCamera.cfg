SPECIFICATION Spec
CONSTANTS Views <- Vs
INVARIANTS Back Units Order Wide Whole
CHECK_DEADLOCK FALSE
