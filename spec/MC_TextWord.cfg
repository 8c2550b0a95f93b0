SPECIFICATION Spec
CONSTANTS Kind = "word"
 Alphabet = {32, 46, 97, 160}
 MaxLen = 6
 MaxN = 1
 EarlyStop = FALSE
INVARIANTS ShinglesByPos ShinglesExact ShinglesPrefix WordsExact
PROPERTY Ends
CHECK_DEADLOCK FALSE
