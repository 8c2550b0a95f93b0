SPECIFICATION Spec
CONSTANTS Kind = "min"
 N = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
