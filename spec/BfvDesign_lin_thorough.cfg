CONSTANTS
 Deg = 2
 Tt = 3
 Moduli <- MBig
 Var = 1
 SecretSet <- Skew
 MaskSet <- Mask2b
 ErrSet <- Max2
 MsgTop = 2
 Ops = {"enc","add","sub","addpt","mulpt","mulpoly"}
 Depth = 3
INIT Init
NEXT Next
INVARIANTS NoiseWithin Decrypts DecIsDecryption
PROPERTY Refines
CHECK_DEADLOCK FALSE
