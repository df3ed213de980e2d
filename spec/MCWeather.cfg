SPECIFICATION Spec
CONSTANTS Year = 11
 MaxRecords = 5
INVARIANTS Neighbours Convex FracOK SortedOK
