SPECIFICATION Spec
CONSTANTS N = 3
 MinSizes = {1, 2}
 Runs = 2
 Symmetric = TRUE
 Strict = FALSE
 ResetIds = TRUE
INVARIANTS Guarantees Left
CHECK_DEADLOCK FALSE
