SPECIFICATION Spec
CONSTANT MaxElems = 9
INVARIANTS Contiguous OneValueEach CopyIsSlice
PROPERTIES Grows Refused
