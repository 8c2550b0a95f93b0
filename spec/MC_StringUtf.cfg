SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS Same Parts
CHECK_DEADLOCK FALSE
