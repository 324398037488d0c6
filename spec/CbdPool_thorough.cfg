CONSTANTS
 W = 64
 Size = 20
INIT Init
NEXT Next
INVARIANTS FitsTwoWords Enough Disjoint Unread
CHECK_DEADLOCK FALSE
