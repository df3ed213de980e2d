SPECIFICATION Spec
CONSTANTS Panes <- MCPanes
 MaxPanes = 3
INVARIANTS Energy Settled Balance Reciprocal Associative
CHECK_DEADLOCK FALSE
