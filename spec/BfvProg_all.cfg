CONSTANTS
 Regs = {0, 1, 2, 3}
 Levels = {0, 1}
 Depth = 16
 Ops = {"enc", "encpoly", "craft", "variant", "add", "sub", "addpt", "mulpt", "mulpoly", "mulbig", "mul", "mulrelin", "relin", "galois", "external", "dec", "noise"}
 MaxParts = 3
 MaxWork = 3
 Exps = {1, 3, 5, 9, 101, 102, 103, 104, 105, 106, 107, 108}
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
