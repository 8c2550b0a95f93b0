SPECIFICATION Spec
CONSTANTS Texts = {t1, t2, t3}
 MaxDocs = 5
 BatchBase = 0
INVARIANT Kept
CHECK_DEADLOCK FALSE
