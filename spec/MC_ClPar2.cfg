SPECIFICATION Spec
CONSTANTS N = 3
 Chunks <- Two3
 Mins = {1, 2, 3}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANTS Exclusive Owned Sized Clean NoUseAfterFree Progress AlonE
PROPERTY Terminates
CHECK_DEADLOCK FALSE
