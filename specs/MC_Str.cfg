CONSTANTS
 N = 3
 M = 3
INIT Init
NEXT Next
INVARIANTS ValueLaw LitLaw Emit
CHECK_DEADLOCK FALSE
