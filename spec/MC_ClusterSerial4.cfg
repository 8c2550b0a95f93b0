SPECIFICATION Spec
CONSTANTS N = 4
 MinSizes = {2, 3}
 Runs = 2
 Symmetric = TRUE
 Strict = FALSE
 ResetIds = FALSE
INVARIANTS Guarantees Left Classes
CHECK_DEADLOCK FALSE
