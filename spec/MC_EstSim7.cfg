CONSTANTS Part = "sim" U = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
