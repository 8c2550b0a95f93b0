SPECIFICATION Spec
CONSTANTS N = 3
 Chunks <- Three3
 Mins = {2}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANTS Exclusive Owned Sized Clean NoUseAfterFree Progress AlonE

CHECK_DEADLOCK FALSE
