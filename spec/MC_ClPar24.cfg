SPECIFICATION Spec
CONSTANTS N = 4
 Chunks <- Two4
 Mins = {2, 3}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANTS Exclusive Owned Sized Clean NoUseAfterFree Progress AlonE

CHECK_DEADLOCK FALSE
