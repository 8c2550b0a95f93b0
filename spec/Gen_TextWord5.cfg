SPECIFICATION Spec
CONSTANTS Kind = "doc"
 MaxLen = 5
 Sym = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
