SPECIFICATION Spec
CONSTANT Year = 22
INVARIANTS Refines Position InPeriod ContainsOK Complete
PROPERTY Terminates
