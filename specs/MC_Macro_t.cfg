CONSTANTS
 Eager = FALSE
 Small = FALSE
INIT Init
NEXT Next
INVARIANTS Right Decided Emit
CHECK_DEADLOCK FALSE
