CONSTANTS
 MaxFirst = 2
 Dims = {2}
 MaxK = 1
 Clients = {1, 2}
INIT Init
NEXT Next
INVARIANTS Correct Dimensions ShapeOnly
CHECK_DEADLOCK FALSE
