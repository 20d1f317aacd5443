CONSTANTS
 Leaves = {"set", "use", "ret", "retv", "break", "cont", "fail"}
 MaxTop = 2
 MaxIn = 1
 Deep = FALSE
INIT Init
NEXT Next
INVARIANTS Sound Exact Emit
CHECK_DEADLOCK FALSE
