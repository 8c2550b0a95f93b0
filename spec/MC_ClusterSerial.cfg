SPECIFICATION Spec
CONSTANTS N = 3
 MinSizes = {1, 2, 3}
 Runs = 2
 Symmetric = FALSE
 Strict = FALSE
 ResetIds = FALSE
INVARIANTS Guarantees Left Classes
CHECK_DEADLOCK FALSE
