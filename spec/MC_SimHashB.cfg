SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 MaxCalls = 3
 W = 5
 NB = 3
 K = 1
 Slack = 0
 Strict = FALSE
INVARIANT QueryExact
CHECK_DEADLOCK FALSE
