SPECIFICATION Spec
CONSTANTS Moves <- M  Points <- P  Boxes <- B  Depth = 3
INVARIANTS There AndBack Normals Hands Boxed FirstAhead
CHECK_DEADLOCK FALSE
