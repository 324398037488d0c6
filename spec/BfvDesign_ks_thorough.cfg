CONSTANTS
 Deg = 2
 Tt = 3
 Moduli <- MBig3
 Var = 1
 SecretSet <- Skew
 MaskSet <- Mask2
 ErrSet <- Max2
 MsgTop = 2
 Ops = {"enc","galois","external"}
 Depth = 2
INIT Init
NEXT Next
INVARIANTS NoiseWithin Decrypts DecIsDecryption
PROPERTY Refines
CHECK_DEADLOCK FALSE
