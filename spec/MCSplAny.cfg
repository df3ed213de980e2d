SPECIFICATION Spec
CONSTANTS
  Letters = {"W"}
  Classes = {"W"}
  Pieces = FALSE
  Chars = {"W", "{", "}", "\"", "\\", "/", "*", "\n"}
  Max = 6
  Most = 6
INVARIANTS Means Apart Stripped
PROPERTY Final
CHECK_DEADLOCK FALSE
