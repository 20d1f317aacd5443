CONSTANTS
 Third = {""}
 MaxSteps = 12
INIT Init
NEXT Next
INVARIANTS Confluent Ends Idem Emit
CHECK_DEADLOCK FALSE
