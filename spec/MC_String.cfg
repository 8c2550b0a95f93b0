SPECIFICATION Spec
CONSTANTS Texts = {t1, t2, t3}
 MaxDocs = 5
 BatchBase = 1
INVARIANT Kept
CHECK_DEADLOCK FALSE
