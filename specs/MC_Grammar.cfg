CONSTANTS
 N0 = 4
 Deep = FALSE
 Sigma = {"a", "1", "(", ")", "[", "]", ",", "+", "not", "in", "=", ":"}
INIT Init
NEXT Next
INVARIANTS TreeLaw Contained Parens Emit
CHECK_DEADLOCK FALSE
