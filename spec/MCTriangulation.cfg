SPECIFICATION TSpec
CONSTANTS W = 2  H = 2  MaxLen = 5  MaxHoles = 1
CONSTANT Grid <- G
CONSTANT Outers <- Outs
CONSTANT Holes <- Hs
INVARIANTS Conserved Covers NotStuck
CHECK_DEADLOCK FALSE
