SPECIFICATION TSpec
CONSTANT MaxElems = 1000
INVARIANTS Contiguous OneValueEach
