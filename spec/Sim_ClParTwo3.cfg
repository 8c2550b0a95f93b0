SPECIFICATION GSpec
CONSTANTS N = 3
 Chunks <- Two3
 Mins = {2,3}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
