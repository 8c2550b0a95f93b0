SPECIFICATION Spec
CONSTANTS Part = "cent"
 MaxLen = 5
 W = 2
 N = 0
 Tie = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
