SPECIFICATION Spec
CONSTANT Both = TRUE
INVARIANT Outcome
CHECK_DEADLOCK FALSE
