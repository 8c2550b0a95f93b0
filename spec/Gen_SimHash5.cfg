SPECIFICATION Spec
CONSTANT MaxBlocks = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
