SPECIFICATION Spec
CONSTANTS Kind = "sim"
 N = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
