CONSTANTS
 N = 8
 T = 17
 Top = 2
INIT Init
NEXT Next
INVARIANTS RoundTrip Hom Rotation
CHECK_DEADLOCK FALSE
