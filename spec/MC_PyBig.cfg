SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Threshold = 2
 BulkFolds = TRUE
 SelectEq = TRUE
INVARIANT Refines
CHECK_DEADLOCK FALSE
