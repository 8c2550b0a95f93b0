SPECIFICATION Spec
CONSTANTS Kind = "measure"
 MaxLen = 6
 Sym = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
