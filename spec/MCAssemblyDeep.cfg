SPECIFICATION MCSpec
CONSTANTS MaxTotal = 6
 MaxEach = 2
INVARIANTS RefIntegrity StateBijection SizesConsistent
PROPERTY Monotone
CHECK_DEADLOCK FALSE
