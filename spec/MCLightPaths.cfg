SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Depths = {0, 1, 2, 5}
  Rhos = {0, 1, 2}
INVARIANTS Once Matt Seen Outside Limit Whole
CHECK_DEADLOCK FALSE
