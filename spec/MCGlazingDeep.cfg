SPECIFICATION Spec
CONSTANTS Panes <- MCPanes
 MaxPanes = 5
INVARIANTS Energy Settled Balance Reciprocal Associative
CHECK_DEADLOCK FALSE
