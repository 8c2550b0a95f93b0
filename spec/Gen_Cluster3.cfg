SPECIFICATION Spec
CONSTANTS N = 3
 Mins = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
