INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Homes = {"main", "sub", "ext"}
  Uses = {"", "EXPLICIT", "IMPLICIT", "UNUSED"}
  MaxFaults = 1
  Notes = {"", "S# Runtime"}
INVARIANTS Agrees Safe Whole Once Quiet Emit
