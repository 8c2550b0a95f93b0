SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 B = 2
 R = 1
 Vals = {0, 1}
 Need = 1
 Kind = "bag"
 Evict = TRUE
 MaxBatch = 2
INVARIANTS TypeOK TableExact QueryExact NoDangling SelfFound CandExact BulkIsSequential
PROPERTIES Refines
CHECK_DEADLOCK FALSE
