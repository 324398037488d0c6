CONSTANT W = 2
INIT Init
NEXT Next
INVARIANTS Carry Exact
CHECK_DEADLOCK FALSE
