CONSTANTS
 Leaves = {"set", "use", "ret", "retv", "break", "cont", "fail", "aug"}
 MaxTop = 2
 MaxIn = 1
 Deep = TRUE
INIT Init
NEXT Next
INVARIANTS Sound Exact Emit
CHECK_DEADLOCK FALSE
