CONSTANTS
 Regs = {0, 1, 2}
 Levels = {0, 1, 2}
 Depth = 24
 Kinds = {0, 1, 3, 4, 5, 6}
 Exps = {1, 3, 5, 7, 101, 102, 103, 104, 105, 106, 107, 108}
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
