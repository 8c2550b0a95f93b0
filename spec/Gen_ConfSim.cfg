SPECIFICATION Spec
CONSTANT Kind = "sim"
INVARIANT Emit
CHECK_DEADLOCK FALSE
