SPECIFICATION GSpec
CONSTANTS N = 3
 Chunks <- Three3
 Mins = {2}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
