SPECIFICATION Spec
CONSTANTS N = 4
 Mins = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
