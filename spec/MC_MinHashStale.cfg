SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 B = 2
 R = 1
 Vals = {0, 1}
 Need = 1
 Kind = "bag"
 Evict = FALSE
 MaxBatch = 2
INVARIANTS TypeOK TableExact NoDangling
CHECK_DEADLOCK FALSE
