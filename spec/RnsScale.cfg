CONSTANTS F = 16  FG = 16
CONSTANT Bases <- BasesV
CONSTANT Factors <- FactorsV
INIT Init
NEXT Next
INVARIANTS Bijection WrapOk Exact
CHECK_DEADLOCK FALSE
