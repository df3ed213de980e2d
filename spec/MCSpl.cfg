SPECIFICATION Spec
CONSTANTS
  Letters = {"W"}
  Classes = {"W"}
  Pieces = TRUE
  Chars = {}
  Max = 6
  Most = 0
INVARIANTS Means Apart Stripped
PROPERTY Final
CHECK_DEADLOCK FALSE
