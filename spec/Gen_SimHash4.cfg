SPECIFICATION Spec
CONSTANT MaxBlocks = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
