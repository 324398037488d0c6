------------------------------ MODULE RnsScale ------------------------------
(***************************************************************************)
(* The scaling algorithm of src/rns.rs in small numbers: residues in the   *)
(* basis From are scaled by Num/Den into the basis To using only the       *)
(* precomputed integers omega_i, gamma and fixed-point fractions with F    *)
(* bits. TLC tries every value below the product and every factor given.   *)
(* Also projects and lifts every value.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Bases, Factors, F, FG
\* Bases: set of <<from, to>>; Factors: set of <<num, den>>
BasesV   == { <<<<3, 5, 7>>, <<11, 13>>>>, <<<<7, 5>>, <<7, 3, 2>>>>, <<<<11>>, <<3, 5>>>>, <<<<2, 7, 3>>, <<5>>>> }
FactorsV == { <<1, 1>>, <<3, 35>>, <<2, 105>>, <<5, 3>>, <<1, 2>>, <<1, 4>>, <<7, 6>> }

VARIABLES pc, fr, to, num, den, x, v, w, out
vars == <<pc, fr, to, num, den, x, v, w, out>>

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
Q == Prod(fr)
Star(i) == Q \div fr[i]
Tilde(i) == CHOOSE t \in 0..(fr[i] - 1) : (t * Star(i)) % fr[i] = 1 % fr[i]
Garner(i) == Star(i) * Tilde(i)
Res(i) == x % fr[i]
RECURSIVE SumF(_, _)
SumF(G(_), i) == IF i = 0 THEN 0 ELSE G(i) + SumF(G, i - 1)
K == Len(fr)

Round(a, b) == (2 * a + b) \div (2 * b)                 \* floor(a/b + 1/2), b > 0
\* integer part and scaled fraction of num*y/den
Whole(y) == Round(num * y, den)
Frac(y)  == Round((num * y - Whole(y) * den) * 2^F, den)   \* signed

Init == /\ pc = "project"
        /\ \E b \in Bases : fr = b[1] /\ to = b[2]
        /\ \E f \in Factors : num = f[1] /\ den = f[2]
        /\ x \in 0..(Prod(fr) - 1)
        /\ v = 0 /\ w = 0 /\ out = <<>>

\* the residues determine x
LiftBack == /\ pc = "project"
            /\ v' = SumF(LAMBDA i : Res(i) * Garner(i), K) % Q
            /\ pc' = "lifted" /\ UNCHANGED <<fr, to, num, den, x, w, out>>
\* number of times Q has to be subtracted, from the fractions of garner_i / Q
Wraps == /\ pc = "lifted"
         /\ v' = Round(SumF(LAMBDA i : Res(i) * Round(Garner(i) * 2^FG, Q), K), 2^FG)
         /\ pc' = "wrapped" /\ UNCHANGED <<fr, to, num, den, x, w, out>>
Carry == /\ pc = "wrapped"
         /\ w' = IF num = den THEN 0
                 ELSE Round(SumF(LAMBDA i : Res(i) * Frac(Garner(i)), K) - v * Frac(Q), 2^F)
         /\ pc' = "carried" /\ UNCHANGED <<fr, to, num, den, x, v, out>>
Output == /\ pc = "carried"
          /\ out' = [j \in 1..Len(to) |->
                       (SumF(LAMBDA i : Res(i) * (Whole(Garner(i)) % to[j]), K) - v * (Whole(Q) % to[j]) + w) % to[j]]
          /\ pc' = "done" /\ UNCHANGED <<fr, to, num, den, x, v, w>>
Next == LiftBack \/ Wraps \/ Carry \/ Output \/ (pc = "done" /\ UNCHANGED vars)

Bijection == pc = "lifted" => v = x
\* the wrap count leaves the centered value
Centered == IF 2 * x < Q THEN x ELSE x - Q
WrapOk == pc = "wrapped" => SumF(LAMBDA i : Res(i) * Garner(i), K) - v * Q = Centered
Tie == (2 * num * Centered) % (2 * den) = den           \* exactly half way
Exact == pc = "done" /\ ~Tie =>
            \A j \in 1..Len(to) : out[j] = Round(num * Centered, den) % to[j]
=============================================================================
