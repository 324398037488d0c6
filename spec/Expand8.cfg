CONSTANTS
 N = 8
 LogN = 3
 P = 17
 Top = 1
 KS = 3
INIT Init
NEXT Next
INVARIANTS Separated NoiseBound Residue
CHECK_DEADLOCK FALSE
