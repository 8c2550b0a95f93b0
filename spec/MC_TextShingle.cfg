SPECIFICATION Spec
CONSTANTS Kind = "shingle"
 Alphabet = {1, 2}
 MaxLen = 6
 MaxN = 5
 EarlyStop = FALSE
INVARIANTS ShinglesByPos ShinglesExact ShinglesPrefix WordsExact
PROPERTY Ends
CHECK_DEADLOCK FALSE
