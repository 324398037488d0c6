CONSTANTS
 L = 3
 Keys = {1, 2}
 Depth = 14
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
