SPECIFICATION Spec
CONSTANT Year = 40
INVARIANTS Refines Position InPeriod ContainsOK Complete
PROPERTY Terminates
