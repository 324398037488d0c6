-------------------------------- MODULE Pvw --------------------------------
(***************************************************************************)
(* Design of the PVW scheme (src/pvw.rs) with one secret, one message bit  *)
(* and M public key rows over Z_Q: every secret, public key, error, subset *)
(* and message. Decryption must return the bit whenever the accumulated    *)
(* error is below the integer quarter of Q.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Q, M, B
VARIABLES s, a, e, pc, bit, ca, cb
vars == <<s, a, e, pc, bit, ca, cb>>
Zq == 0..(Q - 1)
Md(x) == x % Q
Init == /\ s \in Zq /\ a \in [1..M -> Zq] /\ e \in [1..M -> (-B)..B]
        /\ pc = "key" /\ bit = 0 /\ ca = 0 /\ cb = 0
Row(i) == Md(s * a[i] + e[i])
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(S \ {i}, f)
Encrypt == /\ pc = "key"
           /\ \E sub \in SUBSET (1..M), m \in 0..1 :
                 /\ ca' = Md(SumOver(sub, a)) /\ cb' = Md(SumOver(sub, [i \in 1..M |-> Row(i)]) + m * (Q \div 2))
                 /\ bit' = m
           /\ pc' = "ct" /\ UNCHANGED <<s, a, e>>
Next == Encrypt
Deviation == Md(cb - s * ca - bit * (Q \div 2))
Mag(x) == IF x > Q - x THEN Q - x ELSE x
Decode(v) == ((v + (Q \div 4)) \div (Q \div 2)) % 2
Bounded == pc = "ct" => Mag(Deviation) <= M * B
Correct == pc = "ct" => Decode(Md(cb - s * ca)) = bit
ASSUME M * B < Q \div 4
(* the decoder on its own, for many moduli and every admissible error *)
ASSUME \A q \in 4..220 : \A d \in 0..((q \div 4) - 1) : \A m \in 0..1 :
    LET dec(v) == (((v % q) + (q \div 4)) \div (q \div 2)) % 2
    IN  dec(m * (q \div 2) + d) = m /\ dec(m * (q \div 2) + q - d) = m
=============================================================================
