CONSTANTS
 L = 3
 Keys = {1, 2}
 Depth = 5
INIT Init
NEXT Next
INVARIANTS NoneShared InRange
VIEW View
CHECK_DEADLOCK FALSE
