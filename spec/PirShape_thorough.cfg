CONSTANTS
 Firsts = {1, 2, 3, 4, 5, 8, 16}
 MaxDim = 63
 MaxK = 12
 MaxRows = 4096
 MaxBits = 64
 Contents <- Kinds
 Long <- LongerShapes
INIT Init
NEXT Next
INVARIANTS Valid Printed
CHECK_DEADLOCK FALSE
