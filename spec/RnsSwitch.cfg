CONSTANT Chains <- ChainsV
INIT Init
NEXT Next
INVARIANTS Rounded LazyRange
CHECK_DEADLOCK FALSE
