SPECIFICATION MCSpec
CONSTANTS MaxTotal = 5
 MaxEach = 2
INVARIANTS RefIntegrity StateBijection SizesConsistent
PROPERTY Monotone
CHECK_DEADLOCK FALSE
