SPECIFICATION Spec
CONSTANT Divisions = {1, 2, 3, 4}
INVARIANTS Numbered Within Wide Covers
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
