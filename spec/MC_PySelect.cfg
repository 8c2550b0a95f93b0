SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Threshold = 3
 BulkFolds = TRUE
 SelectEq = FALSE
INVARIANT Refines
CHECK_DEADLOCK FALSE
