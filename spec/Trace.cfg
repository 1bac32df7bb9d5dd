CONSTANT Verbose = FALSE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
