CONSTANTS
 MaxTop = 1
 MaxIn = 2
 Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Dual Local LoadLaw Emit
CHECK_DEADLOCK FALSE
