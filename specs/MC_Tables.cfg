INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLoads = 2
  MaxEnts = 1
  Menu = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16}
  Bads = {"", "type"}
  Hows = {"api", "flags", "buildozer"}
INVARIANTS Follows Given Frame Only Bad0 Twice Settled Emit
