CONSTANTS
 Max = 4
 Inds = {0, 1, 2}
 Kinds = {"x", "y", "if", "else", "elif", "def", "ifx", "com"}
INIT Init
NEXT Next
INVARIANTS Quiet Shifted Lenient Deep Emit
CHECK_DEADLOCK FALSE
