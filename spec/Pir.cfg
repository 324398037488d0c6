CONSTANTS
 MaxFirst = 3
 Dims = {2, 3}
 MaxK = 2
 Clients = {1}
INIT Init
NEXT Next
INVARIANTS Correct Dimensions ShapeOnly Injective
CHECK_DEADLOCK FALSE
