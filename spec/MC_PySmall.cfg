SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Threshold = 3
 BulkFolds = TRUE
 SelectEq = TRUE
INVARIANT Refines
CHECK_DEADLOCK FALSE
