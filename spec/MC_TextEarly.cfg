SPECIFICATION Spec
CONSTANTS Kind = "shingle"
 Alphabet = {1, 2}
 MaxLen = 4
 MaxN = 4
 EarlyStop = TRUE
INVARIANTS ShinglesExact ShinglesPrefix WordsExact
PROPERTY Ends
CHECK_DEADLOCK FALSE
