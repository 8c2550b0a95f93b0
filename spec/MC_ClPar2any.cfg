SPECIFICATION Spec
CONSTANTS N = 3
 Chunks <- Two3
 Mins = {2}
 Rel = "any"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
INVARIANTS Exclusive Owned Sized Clean NoUseAfterFree Progress AlonE

CHECK_DEADLOCK FALSE
