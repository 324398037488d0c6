CONSTANTS
 Regs = {0, 1, 2, 3}
 Levels = {0, 1, 2}
 Depth = 10
 Ops = {"enc", "encpoly", "craft", "variant", "dec", "trial"}
 MaxParts = 4
 MaxWork = 4
 Exps = {1, 3, 5, 9, 101, 102, 103, 104, 105, 106, 107, 108}
INIT Init
NEXT Next
INVARIANT Printed
CHECK_DEADLOCK FALSE
