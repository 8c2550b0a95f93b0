SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 B = 2
 R = 2
 Vals = {0, 1}
 Need = 3
 Kind = "bag"
 Evict = TRUE
 MaxBatch = 1
INVARIANTS TypeOK TableExact QueryExact NoDangling SelfFound CandExact BulkIsSequential
PROPERTIES Refines
CHECK_DEADLOCK FALSE
