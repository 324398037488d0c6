CONSTANTS
 Deg = 1
 Tt = 2
 Moduli <- M35
 Var = 1
 SecretSet <- Tern
 MaskSet <- Zero
 ErrSet <- Zero
 MsgTop = 1
 Ops = {"any","mul"}
 Depth = 3
INIT Init
NEXT Next
INVARIANTS NoiseWithin Decrypts DecIsDecryption
PROPERTY Refines
CHECK_DEADLOCK FALSE
