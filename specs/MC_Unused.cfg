INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Homes = {"main", "ext"}
  Uses = {"", "EXPLICIT"}
  MaxFaults = 1
  Notes = {"", "S# Runtime"}
INVARIANTS Agrees Safe Whole Once Quiet Emit
