CONSTANTS
 N0 = 4
 Deep = TRUE
 Sigma = {"a", "1", "'", "(", ")", "[", "]", "{", "}", ",", "+", "-", "not", "in", "=", ":", "if", "else", "for", "*", ".", "lambda", ";", "=="}
INIT Init
NEXT Next
INVARIANTS TreeLaw Contained Parens Emit
CHECK_DEADLOCK FALSE
