CONSTANTS
 Max = 4
 Inds = {0, 1, 2}
 Kinds = {"x", "if", "else", "def", "com"}
INIT Init
NEXT Next
INVARIANTS Quiet Shifted Lenient Deep Emit
CHECK_DEADLOCK FALSE
