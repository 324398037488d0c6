CONSTANTS
 Clients = {0, 1, 2}
 Slots = {0, 1, 2, 3}
 Positions = {0, 1, 2}
 Depth = 18
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
