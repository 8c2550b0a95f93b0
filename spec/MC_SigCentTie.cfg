SPECIFICATION Spec
CONSTANTS Part = "cent"
 MaxLen = 4
 W = 2
 N = 0
 Tie = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
