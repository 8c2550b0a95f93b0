SPECIFICATION Spec
CONSTANTS N = 3
 Chunks <- One3
 Mins = {1, 2, 3}
 Rel = "any"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANTS Exclusive Owned Sized Clean NoUseAfterFree Progress AlonE
PROPERTY Terminates
CHECK_DEADLOCK FALSE
