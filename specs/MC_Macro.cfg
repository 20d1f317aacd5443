CONSTANTS
 Eager = FALSE
 Small = TRUE
INIT Init
NEXT Next
INVARIANTS Right Decided Emit
CHECK_DEADLOCK FALSE
