SPECIFICATION Spec
CONSTANTS Kind = "min"
 N = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
