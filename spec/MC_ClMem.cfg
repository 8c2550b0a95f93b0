SPECIFICATION MSpec
CONSTANTS N = 3
 Chunks <- Two3
 Mins = {1, 2}
 Rel = "sym"
 SameState = FALSE
 FreeEarly = FALSE
 NoTakeover = FALSE
 OwnLoad <- AcqOnly
 ClaimOk <- RelAcq
 ClaimFail <- AcqOnly
 StateLoad <- AcqOnly
 StateOk <- RelAcq
 StateFail <- AcqOnly
 FreeOk <- RelAcq
 FreeFail <- Relaxed
INVARIANTS NoRace Exclusive Owned NoUseAfterFree
CHECK_DEADLOCK FALSE
