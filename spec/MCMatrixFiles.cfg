SPECIFICATION Spec
CONSTANTS Matrices <- M
INVARIANTS Shape
PROPERTIES Back Kind NotDamaged
CHECK_DEADLOCK FALSE
