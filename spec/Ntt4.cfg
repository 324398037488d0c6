CONSTANTS P = 17  N = 4  LogN = 2  Omega = 2  W = 8  Coeffs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INIT Init
NEXT Next
INVARIANTS LazyRange Evaluates Inverts
CHECK_DEADLOCK FALSE
