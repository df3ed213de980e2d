SPECIFICATION Spec
CONSTANTS Year = 15
 MaxRecords = 7
INVARIANTS Neighbours Convex FracOK SortedOK
