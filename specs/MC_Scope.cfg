CONSTANTS
 MaxTop = 2
 MaxIn = 1
 Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Dual Local LoadLaw Emit
CHECK_DEADLOCK FALSE
