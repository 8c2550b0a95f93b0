CONSTANTS Part = "sim" U = 5
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
