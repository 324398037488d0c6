----------------------------- MODULE RnsSwitch -----------------------------
(***************************************************************************)
(* Modulus switching of src/rq.rs residue by residue, with its lazy        *)
(* ranges: drop the last prime of a chain, divide and round; repeat until  *)
(* one prime is left. Every value below the product is tried.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Chains
ChainsV == { <<3, 5, 7>>, <<7, 5, 3>>, <<5, 13, 3>>, <<13, 3, 11>>, <<11, 3>>, <<3, 5, 7, 11>> }

VARIABLES pc, ms, r, t, x, i
vars == <<pc, ms, r, t, x, i>>
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
Inv(a, m) == CHOOSE z \in 0..(m - 1) : (a * z) % m = 1 % m
K == Len(ms)
QL == ms[K]

Init == /\ pc = "ready" /\ \E c \in Chains : ms = c /\ x \in 0..(Prod(c) - 1)
        /\ r = [k \in 1..Len(ms) |-> x % ms[k]] /\ t = 0 /\ i = 0
\* add floor(q_last / 2) to the last residue
Shift == /\ pc = "ready" /\ K > 1
         /\ t' = (r[K] + (QL \div 2)) % QL
         /\ i' = 1 /\ pc' = "residues" /\ UNCHANGED <<ms, r, x>>
Residue == /\ pc = "residues" /\ i < K
           /\ LET m == ms[i]
                  tmp == (t % m) + (m - ((QL \div 2) % m))
                  c == r[i] + 3 * m - tmp                  \* lazy, below 4 m
              IN  r' = [r EXCEPT ![i] = (c * Inv(QL % m, m)) % m]
           /\ i' = i + 1 /\ UNCHANGED <<pc, ms, t, x>>
Drop == /\ pc = "residues" /\ i = K
        /\ ms' = SubSeq(ms, 1, K - 1) /\ r' = SubSeq(r, 1, K - 1)
        /\ x' = ((2 * x + QL) \div (2 * QL)) % Prod(ms')
        /\ pc' = "ready" /\ t' = 0 /\ i' = 0
Next == Shift \/ Residue \/ Drop \/ (pc = "ready" /\ K = 1 /\ UNCHANGED vars)
Rounded == pc = "ready" => \A k \in 1..K : r[k] = x % ms[k]
LazyRange == pc = "residues" /\ i < K =>
    LET m == ms[i]  c == r[i] + 3 * m - ((t % m) + (m - ((QL \div 2) % m))) IN c \in 0..(4 * m)
=============================================================================
