INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxMarks = 2
  Trees = {1, 2, 3, 4, 5, 6}
INVARIANTS Agrees Once After All Frame Emit
