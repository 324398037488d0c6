CONSTANTS
 Sizes = {8, 9, 10}
 Most = 3
 Degrees = {4, 8, 16, 32, 64}
INIT Init
NEXT Next
INVARIANTS Result Sound Disjoint
CHECK_DEADLOCK FALSE
