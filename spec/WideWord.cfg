CONSTANT W = 1
INIT Init
NEXT Next
INVARIANTS Carry Exact
CHECK_DEADLOCK FALSE
