CONSTANTS
 Deg = 1
 Tt = 3
 Moduli <- M385
 Var = 1
 SecretSet <- Five
 MaskSet <- All385
 ErrSet <- Five
 MsgTop = 2
 Ops = {"enc"}
 Depth = 1
INIT Init
NEXT Next
INVARIANTS NoiseWithin Decrypts DecIsDecryption
PROPERTY Refines
CHECK_DEADLOCK FALSE
