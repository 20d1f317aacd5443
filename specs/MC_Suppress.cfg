CONSTANTS
 Cats = {"integer-division", "print", "no-effect", "long", "bare", "doz"}
 MaxComs = 1
 Wide = FALSE
INIT Init
NEXT Next
INVARIANTS Law Emit
CHECK_DEADLOCK FALSE
