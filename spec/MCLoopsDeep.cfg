SPECIFICATION Spec
CONSTANTS W = 3  H = 2  MaxLen = 6  MaxHoles = 2
CONSTANT Grid <- G
CONSTANT Outers <- Outs
CONSTANT Holes <- Hs
INVARIANTS CleanIsSimple Pick SameReversed NeverCrosses Net Joined
PROPERTY Settled
CHECK_DEADLOCK FALSE
