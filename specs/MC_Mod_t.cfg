CONSTANTS
 Depth = 2
 Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Law FailLaw Idempotent Emit
CHECK_DEADLOCK FALSE
