SPECIFICATION Spec
CONSTANTS Kind = "doc"
 MaxLen = 6
 Sym = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
