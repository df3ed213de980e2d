SPECIFICATION Spec
CONSTANT Divisions = {1, 2, 3, 4, 5, 6, 8, 10}
INVARIANTS Numbered Within Wide Covers
PROPERTIES InOrder
CHECK_DEADLOCK FALSE
