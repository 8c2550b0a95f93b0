SPECIFICATION GSpec
CONSTANTS Depth = 4
 Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
