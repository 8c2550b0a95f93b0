SPECIFICATION GSpec
CONSTANTS Depth = 14
 Rich = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
