SPECIFICATION Spec
CONSTANT Kind = "min"
INVARIANT Emit
CHECK_DEADLOCK FALSE
