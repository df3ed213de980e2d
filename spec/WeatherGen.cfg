SPECIFICATION GSpec
CONSTANTS Year = 9
 MaxRecords = 4
INVARIANT Emit
