CONSTANTS
 Q = 13
 M = 2
 B = 1
INIT Init
NEXT Next
INVARIANTS Bounded Correct
CHECK_DEADLOCK FALSE
