SPECIFICATION TGSpec
CONSTANTS N = 7  Steps = 16  PolySteps = 7  MaxLen = 99  MaxHoles = 99
CONSTANTS Grid = {}  Outers = {}  Holes = {}
INVARIANT EmitT
CHECK_DEADLOCK FALSE
