------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Design of oblivious expansion (Evaluation::unpack of src/evaluations.rs)*)
(* on noisy values: node j of stage i is split into the sum and difference *)
(* with its automorphic image X -> X^(N/2^i + 1), the difference           *)
(* multiplied by X^-(2^i). Every key switch may add any error of size KS;  *)
(* the model carries a bound of the accumulated error next to the exact    *)
(* polynomial. Checked for every polynomial over Z_P of degree N.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS N, LogN, P, Top, KS
VARIABLES f, stage, pos, node, err
vars == <<f, stage, pos, node, err>>
RECURSIVE Exp2(_)
Exp2(i) == IF i = 0 THEN 1 ELSE 2 * Exp2(i - 1)
Inv(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
Polys == [1..N -> 0..Top]
Add(a, b) == [i \in 1..N |-> (a[i] + b[i]) % P]
Sub(a, b) == [i \in 1..N |-> (a[i] + P - b[i]) % P]
Scale(a, c) == [i \in 1..N |-> (a[i] * c) % P]
Subst(a, k) == [j \in 1..N |-> LET i == CHOOSE i \in 0..(N - 1) : ((i * k) % (2 * N)) % N = j - 1
                               IN IF (i * k) % (2 * N) >= N THEN (P - a[i + 1]) % P ELSE a[i + 1]]
\* times X^-m, 0 < m < N
Shift(a, m) == [j \in 1..N |-> IF j + m <= N THEN a[j + m] ELSE (P - a[j + m - N]) % P]
InvN == Inv(N % P)
Init == /\ f \in Polys /\ stage = 0 /\ pos = 0
        /\ node = [j \in 0..(N - 1) |-> Scale(f, InvN)] /\ err = [j \in 0..(N - 1) |-> 0]
Split == /\ stage < LogN
         /\ LET w == Exp2(stage)  r == Subst(node[pos], (N \div w) + 1)  e == 2 * err[pos] + KS
            IN  /\ node' = [node EXCEPT ![pos] = Add(node[pos], r), ![pos + w] = Shift(Sub(node[pos], r), w)]
                /\ err' = [err EXCEPT ![pos] = e, ![pos + w] = e]
                /\ IF pos + 1 < w THEN pos' = pos + 1 /\ stage' = stage ELSE pos' = 0 /\ stage' = stage + 1
         /\ UNCHANGED f
Next == Split
Done == stage = LogN
Const(c) == [i \in 1..N |-> IF i = 1 THEN c ELSE 0]
Separated == Done => \A k \in 0..(N - 1) : node[k] = Const(f[k + 1])
NoiseBound == \A k \in 0..(N - 1) : err[k] <= (N - 1) * KS
(* between splits: node j of a finished stage holds, scaled, exactly the   *)
(* coefficients congruent to j, moved down by j                            *)
Residue == (pos = 0 /\ ~Done) =>
    \A j \in 0..(Exp2(stage) - 1) :
        node[j] = [i \in 1..N |-> IF (i - 1) % Exp2(stage) = 0 THEN (f[i + j] * InvN * Exp2(stage)) % P ELSE 0]
=============================================================================
