SPECIFICATION Spec
CONSTANTS Part = "min"
 MaxLen = 4
 W = 2
 N = 0
 Tie = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
