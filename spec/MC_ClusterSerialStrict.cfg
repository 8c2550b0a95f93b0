SPECIFICATION Spec
CONSTANTS N = 3
 MinSizes = {1, 2, 3}
 Runs = 2
 Symmetric = TRUE
 Strict = TRUE
 ResetIds = FALSE
INVARIANTS Guarantees Left
CHECK_DEADLOCK FALSE
