CONSTANTS
 Depth = 1
 Rich = FALSE
INIT Init
NEXT Next
INVARIANTS Idempotent SameRules Bound SameLabels OnePackage Emit
CHECK_DEADLOCK FALSE
