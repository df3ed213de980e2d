SPECIFICATION Spec
CONSTANTS Vols = {"30", "300"} Gains = {"0", "1000", "-500"} Winds = {"0", "0.05"} Outs = {"0", "20", "35"} Hs = {"0", "3"} Starts = {10, 22} Dt = 300
CONSTRAINT BoundDeep
INVARIANTS IsolatedKeeps Energy Halves Monotone Commutes
PROPERTIES Approach Isolated
CHECK_DEADLOCK FALSE
