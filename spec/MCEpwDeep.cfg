SPECIFICATION Spec
CONSTANTS Alphabet = {"a", ",", "q", "nl", "cr"}
 MaxLen = 7
INVARIANTS Progress Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
