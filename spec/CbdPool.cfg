CONSTANTS
 W = 8
 Size = 9
INIT Init
NEXT Next
INVARIANTS FitsTwoWords Enough Disjoint Unread
CHECK_DEADLOCK FALSE
