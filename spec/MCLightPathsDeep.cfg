SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Depths = {0, 1, 2, 3, 4, 7}
  Rhos = {0, 1, 2}
INVARIANTS Once Matt Seen Outside Limit Whole
CHECK_DEADLOCK FALSE
