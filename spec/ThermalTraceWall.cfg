SPECIFICATION Spec
CONSTANT Part = "wall"
