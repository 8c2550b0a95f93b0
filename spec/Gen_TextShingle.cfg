SPECIFICATION Spec
CONSTANTS Kind = "doc"
 MaxLen = 4
 Sym = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
