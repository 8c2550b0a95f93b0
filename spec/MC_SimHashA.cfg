SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 MaxCalls = 3
 W = 4
 NB = 3
 K = 2
 Slack = 0
 Strict = FALSE
INVARIANT QueryExact
CHECK_DEADLOCK FALSE
