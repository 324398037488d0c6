CONSTANT W = 5
INIT Init
NEXT Next
INVARIANTS LazyRange NoUnderflow Exact PowInvariant
CHECK_DEADLOCK FALSE
