SPECIFICATION Spec
CONSTANTS P = 3 Size = 3 Half = 1 Entries = {0, 1, 2} Rhs = {0, 1, 2}
INVARIANTS Solves StaysBanded Identity
PROPERTY Ends
