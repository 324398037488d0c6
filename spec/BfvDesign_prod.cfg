CONSTANTS
 Deg = 2
 Tt = 3
 Moduli <- MBig3
 Var = 1
 SecretSet <- Ends
 MaskSet <- Mask2
 ErrSet <- Max2
 MsgTop = 1
 Ops = {"enc","mul","relin"}
 Depth = 4
INIT Init
NEXT Next
INVARIANTS NoiseWithin Decrypts DecIsDecryption
PROPERTY Refines
CHECK_DEADLOCK FALSE
