CONSTANTS P = 17  N = 8  LogN = 3  Omega = 3  W = 7  Coeffs = {0, 1, 16}
INIT Init
NEXT Next
INVARIANTS LazyRange Evaluates Inverts
CHECK_DEADLOCK FALSE
