CONSTANTS
 Q = 17
 M = 3
 B = 1
INIT Init
NEXT Next
INVARIANTS Bounded Correct
CHECK_DEADLOCK FALSE
