CONSTANT Emit = TRUE
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
