SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 MaxCalls = 2
 W = 6
 NB = 3
 K = 2
 Slack = 0
 Strict = FALSE
INVARIANT QueryExact
CHECK_DEADLOCK FALSE
