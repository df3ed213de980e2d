SPECIFICATION Spec
CONSTANT Part = "zone"
