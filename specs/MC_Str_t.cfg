CONSTANTS
 N = 4
 M = 4
INIT Init
NEXT Next
INVARIANTS ValueLaw LitLaw Emit
CHECK_DEADLOCK FALSE
