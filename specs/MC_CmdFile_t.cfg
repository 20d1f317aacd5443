CONSTANTS
 Max = 5
 Bits = {"add deps z", "print", "|", "\\", " ", "z", "*", "//:r1", "|//:r2", "\n", "#"}
INIT Init
NEXT Next
INVARIANTS Splits Blank Lines Emit
CHECK_DEADLOCK FALSE
