SPECIFICATION Spec
CONSTANTS Images <- I
INVARIANTS Size Bytes Leading Up UpLog Apart Tints
PROPERTIES Kept Again Refused
CHECK_DEADLOCK FALSE
