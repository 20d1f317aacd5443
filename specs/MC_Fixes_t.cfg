CONSTANTS
 Third = {"", "dict", "nonempty", "list", "single", "newfile", "div"}
 MaxSteps = 16
INIT Init
NEXT Next
INVARIANTS Confluent Ends Idem Emit
CHECK_DEADLOCK FALSE
