CONSTANTS
 Depth = 2
 Rich = TRUE
INIT Init
NEXT Next
INVARIANTS Idempotent SameRules Bound SameLabels OnePackage Emit
CHECK_DEADLOCK FALSE
