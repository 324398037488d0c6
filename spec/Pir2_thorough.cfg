CONSTANTS
 MaxFirst = 2
 Dims = {2}
 MaxK = 2
 Clients = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Correct Dimensions ShapeOnly
CHECK_DEADLOCK FALSE
