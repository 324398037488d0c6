CONSTANTS
 Firsts = {1, 3}
 MaxDim = 32
 MaxK = 10
 MaxRows = 1024
 MaxBits = 32
 Contents <- Kinds
 Long <- LongShapes
INIT Init
NEXT Next
INVARIANTS Valid Printed
CHECK_DEADLOCK FALSE
