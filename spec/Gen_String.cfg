SPECIFICATION Spec
CONSTANTS MaxPieces = 3
 MaxOps = 3
 Pieces = {"word", "other", "bad", "lf", "crlf", "cr"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
