SPECIFICATION Spec
CONSTANTS Kind = "measure"
 MaxLen = 4
 Sym = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
