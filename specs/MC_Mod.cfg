CONSTANTS
 Depth = 1
 Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Law FailLaw Idempotent Emit
CHECK_DEADLOCK FALSE
