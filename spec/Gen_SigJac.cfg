SPECIFICATION Spec
CONSTANTS Kind = "jac"
 MaxLen = 3
 Sym = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
