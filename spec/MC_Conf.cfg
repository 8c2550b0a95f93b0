SPECIFICATION Spec
CONSTANT Both = FALSE
INVARIANT Outcome
CHECK_DEADLOCK FALSE
