SPECIFICATION Spec
CONSTANTS
 Objects <- MCObjects
 Refs <- MCRefs
 Statements <- MCStatements
 MaxStates = 2
 InitialState <- MCInitial
INVARIANTS Whole Private
PROPERTIES Local FailsClean Kept Ends
CHECK_DEADLOCK FALSE
