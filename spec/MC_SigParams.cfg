SPECIFICATION Spec
CONSTANTS Part = "greedy"
 MaxLen = 0
 W = 1
 N = 10
 Tie = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
