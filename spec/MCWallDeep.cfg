SPECIFICATION Spec
CONSTANTS Starts = {10, 20} Airs = {0, 20, 35} Suns = {0, 500} Dt = 300
CONSTANTS Surfaces <- MCSurfaces
CONSTRAINT BoundDeep
INVARIANTS Equilibrium Mirror SunWarms Balanced
PROPERTIES Range
CHECK_DEADLOCK FALSE
