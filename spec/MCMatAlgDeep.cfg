SPECIFICATION Spec
CONSTANTS P = 5 Size = 4 Half = 1 Entries = {1, 2, 4} Rhs = {1, 3}
INVARIANTS Solves StaysBanded Identity
