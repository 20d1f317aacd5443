CONSTANTS
 Workers = 3
 Lines = 2
 KeepGoing = {FALSE, TRUE}
 Stdouts = {FALSE, TRUE}
INIT Init
NEXT Next
INVARIANTS Exclusive Final Atomic Shadowed Emit
CHECK_DEADLOCK FALSE
