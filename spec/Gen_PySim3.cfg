SPECIFICATION Spec
CONSTANTS Kind = "sim"
 N = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
