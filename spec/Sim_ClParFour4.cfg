SPECIFICATION GSpec
CONSTANTS N = 4
 Chunks <- Four4
 Mins = {2,3}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
