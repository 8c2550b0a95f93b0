SPECIFICATION GSpec
CONSTANTS Depth = 3
 Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
