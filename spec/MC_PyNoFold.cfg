SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Threshold = 2
 BulkFolds = FALSE
 SelectEq = TRUE
INVARIANT Refines
CHECK_DEADLOCK FALSE
