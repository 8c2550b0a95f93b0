CONSTANTS Part = "min" U = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
