SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Ids = {1}
 Sg = {1, 2}
 Kind = "memo"
INVARIANT Alone
CHECK_DEADLOCK FALSE
