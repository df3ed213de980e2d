SPECIFICATION TSpec
CONSTANTS W = 0  H = 0  MaxLen = 0  MaxHoles = 2
CONSTANT Grid <- G
CONSTANT Outers <- Outs2
CONSTANT Holes <- Hs2
INVARIANTS Conserved Covers NotStuck
CHECK_DEADLOCK FALSE
