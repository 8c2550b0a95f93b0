SPECIFICATION Spec
CONSTANTS Kind = "jac"
 MaxLen = 4
 Sym = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
