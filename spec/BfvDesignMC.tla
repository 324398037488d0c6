---------------------------- MODULE BfvDesignMC ----------------------------
(* values for the constants of BfvDesign *)
EXTENDS BfvDesign
M15 == <<3, 5>>
M35 == <<5, 7>>
M77 == <<7, 11>>
M385 == <<5, 7, 11>>
MBig == <<32749, 32719>>
MBig3 == <<30011, 30013, 30029>>
Tern == {-1, 0, 1}
Two1 == {-1, 2}
Ends == {-1, 1}
Skew == {-1, 0, 2}
Five == -2..2
Max2 == {-2, 2}
Zero == {0}
All385 == 0..384
Mask1 == {9973}
Mask2 == {0, 9973}
Mask2b == {0, 17}
=============================================================================
