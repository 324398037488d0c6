CONSTANTS
 Sizes = {7, 8}
 Most = 3
 Degrees = {2, 4, 8, 16}
INIT Init
NEXT Next
INVARIANTS Result Sound Disjoint
CHECK_DEADLOCK FALSE
