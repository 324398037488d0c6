CONSTANTS
 Primes = {5}
 Exps = {1, 3, 5, 7}
INIT Init
NEXT Next
INVARIANTS Faithful Canonical
CHECK_DEADLOCK FALSE
