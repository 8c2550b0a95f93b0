SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Ids = {1, 2}
 Sg = {1, 2}
 Kind = "private"
INVARIANT Alone
CHECK_DEADLOCK FALSE
