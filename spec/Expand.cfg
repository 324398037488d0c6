CONSTANTS
 N = 4
 LogN = 2
 P = 17
 Top = 6
 KS = 3
INIT Init
NEXT Next
INVARIANTS Separated NoiseBound Residue
CHECK_DEADLOCK FALSE
