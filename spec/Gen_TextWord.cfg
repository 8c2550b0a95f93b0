SPECIFICATION Spec
CONSTANTS Kind = "doc"
 MaxLen = 4
 Sym = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
