CONSTANT Emit = FALSE
INIT Init
NEXT Next
INVARIANTS Typed Labelled
CHECK_DEADLOCK FALSE
