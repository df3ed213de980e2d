SPECIFICATION Spec
CONSTANTS Starts = {10, 20} Airs = {0, 20} Suns = {0, 500} Dt = 300
CONSTANTS Surfaces <- Small
CONSTRAINT Bound
INVARIANTS Equilibrium Mirror SunWarms Balanced
PROPERTIES Range
CHECK_DEADLOCK FALSE
