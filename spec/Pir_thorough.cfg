CONSTANTS
 MaxFirst = 5
 Dims = {2, 3, 4}
 MaxK = 3
 Clients = {1}
INIT Init
NEXT Next
INVARIANTS Correct Dimensions ShapeOnly Injective
CHECK_DEADLOCK FALSE
