SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 MaxOps = 4
 Pieces = {"word", "other", "bad", "lf", "crlf", "cr"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
