SPECIFICATION GSpec
CONSTANT Len0 = 17
INVARIANTS Emit RefIntegrity StateBijection
CHECK_DEADLOCK FALSE
