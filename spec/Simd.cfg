CONSTANTS
 N = 4
 T = 17
 Top = 5
INIT Init
NEXT Next
INVARIANTS RoundTrip Hom Rotation
CHECK_DEADLOCK FALSE
