SPECIFICATION GSpec
CONSTANTS N = 6  Steps = 16  PolySteps = 6  MaxLen = 99  MaxHoles = 99
CONSTANTS Grid = {}  Outers = {}  Holes = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
