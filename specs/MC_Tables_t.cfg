INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLoads = 2
  MaxEnts = 2
  Menu = {1, 4, 5, 7, 8, 9, 11, 12, 14, 15}
  Bads = {"", "type"}
  Hows = {"api", "flags", "buildozer"}
INVARIANTS Follows Given Frame Only Bad0 Twice Settled Emit
