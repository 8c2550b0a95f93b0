CONSTANTS Part = "min" U = 5
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
