-------------------------------- MODULE Ntt --------------------------------
(***************************************************************************)
(* The lazy Harvey transforms of src/ntt.rs, butterfly by butterfly, for   *)
(* a modulus P with 2N | P-1, W-bit words and a primitive 2N-th root       *)
(* Omega. Forward values stay below 4P, backward ones below 2P, and the    *)
(* results are canonical. The forward result is the evaluation at odd      *)
(* powers of Omega in bit-reversed order; backward inverts it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS P, N, LogN, Omega, W, Coeffs
B == 2^W
ASSUME N = 2^LogN /\ (P - 1) % (2 * N) = 0 /\ 4 * P < B

VARIABLES pc,        \* "forward", "reduced", "backward", "done"
          f,         \* the input polynomial
          v,         \* the working vector, 0-based
          layer, blk, j
vars == <<pc, f, v, layer, blk, j>>

Idx == 0..(N - 1)
RECURSIVE Pw(_, _)
Pw(a, e) == IF e = 0 THEN 1 ELSE (a * Pw(a, e - 1)) % P
Inv(a) == Pw(a, P - 2)
RECURSIVE Rev(_, _)
Rev(i, b) == IF b = 0 THEN 0 ELSE (i % 2) * 2^(b - 1) + Rev(i \div 2, b - 1)

\* tables as precomputed by the operator
OmegaTab == [i \in Idx |-> Pw(Omega, Rev(i, LogN))]
ZetaTab  == [i \in Idx |-> Pw(Inv(Omega), Rev(i, LogN) + 1)]
Quot(w)  == (w * B) \div P
LazyMul(a, w) == a * w - ((a * Quot(w)) \div B) * P
CondSub(a, m) == IF a >= m THEN a - m ELSE a

Init == /\ pc = "forward" /\ f \in [Idx -> Coeffs] /\ v = f
        /\ layer = 0 /\ blk = 0 /\ j = 0

\* layer k has 2^k blocks of length 2*L
L == 2^(LogN - 1 - layer)
Advance(lastpc) ==
    IF j + 1 < L THEN j' = j + 1 /\ UNCHANGED <<layer, blk, pc>>
    ELSE IF blk + 1 < 2^layer THEN j' = 0 /\ blk' = blk + 1 /\ UNCHANGED <<layer, pc>>
    ELSE IF layer + 1 < LogN THEN j' = 0 /\ blk' = 0 /\ layer' = layer + 1 /\ UNCHANGED pc
    ELSE j' = 0 /\ blk' = 0 /\ layer' = LogN /\ pc' = lastpc

Butterfly == /\ pc = "forward" /\ layer < LogN
             /\ LET w == OmegaTab[2^layer + blk]
                    a == 2 * blk * L + j
                    x == CondSub(v[a], 2 * P)
                    t == LazyMul(v[a + L], w)
                IN  v' = [v EXCEPT ![a] = x + t, ![a + L] = x + 2 * P - t]
             /\ Advance("reduce") /\ UNCHANGED f
Reduce == /\ pc = "reduce"
          /\ v' = [i \in Idx |-> CondSub(CondSub(v[i], 2 * P), P)]
          /\ pc' = "reduced" /\ UNCHANGED <<f, layer, blk, j>>
Turn == /\ pc = "reduced" /\ pc' = "backward"
        /\ layer' = LogN - 1 /\ blk' = 0 /\ j' = 0 /\ UNCHANGED <<f, v>>
\* backward: block lengths 1, 2, ...; the zeta table is read in one sweep
ZBase == N - 2^(layer + 1)
InvButterfly ==
    /\ pc = "backward"
    /\ LET z == ZetaTab[ZBase + blk]
           a == 2 * blk * L + j
       IN  v' = [v EXCEPT ![a] = CondSub(v[a] + v[a + L], 2 * P),
                          ![a + L] = LazyMul(2 * P + v[a] - v[a + L], z)]
    /\ IF j + 1 < L THEN j' = j + 1 /\ UNCHANGED <<layer, blk, pc>>
       ELSE IF blk + 1 < 2^layer THEN j' = 0 /\ blk' = blk + 1 /\ UNCHANGED <<layer, pc>>
       ELSE j' = 0 /\ blk' = 0 /\ IF layer > 0 THEN layer' = layer - 1 /\ UNCHANGED pc
                                  ELSE pc' = "scale" /\ UNCHANGED layer
    /\ UNCHANGED f
Scale == /\ pc = "scale"
         /\ v' = [i \in Idx |-> CondSub(LazyMul(v[i], Inv(N)), P)]
         /\ pc' = "done" /\ UNCHANGED <<f, layer, blk, j>>
Next == Butterfly \/ Reduce \/ Turn \/ InvButterfly \/ Scale \/ (pc = "done" /\ UNCHANGED vars)

RECURSIVE Horner(_, _, _)
Horner(a, z, i) == IF i = N THEN 0 ELSE (a[i] + z * Horner(a, z, i + 1)) % P
LazyRange == /\ pc \in {"forward", "reduce"} => \A i \in Idx : v[i] \in 0..(4 * P - 1)
             /\ pc \in {"backward", "scale"} => \A i \in Idx : v[i] \in 0..(2 * P - 1)
Evaluates == pc = "reduced" =>
                \A i \in Idx : v[i] = Horner(f, Pw(Omega, 2 * Rev(i, LogN) + 1), 0)
Inverts == pc = "done" => v = f
=============================================================================
