---------------------------- MODULE SamplerTrace ----------------------------
(***************************************************************************)
(* Recorded samples of src/utils.rs, src/rq.rs, src/modulus.rs and         *)
(* SecretKey::generate. "flips" events relate the random bits a sampler    *)
(* read to the coefficients it returned; the other events are judged by    *)
(* statistics (Stats.tla). known: what seeds were expanded to so far.      *)
(***************************************************************************)
EXTENDS Rns, Stats, TraceBase, FiniteSets
VARIABLE known
Ok(name) == IsEvent(name) /\ Returned(Ev)
Keep == UNCHANGED known

(* many calls of a given size, row after row *)
Cbd == /\ Ok("cbd") /\ Keep
       /\ Len(Ev.xs) = Ev.size * Ev.reps
       /\ CbdOk(Ev.xs, Ev.var) /\ CbdFree(Ev.xs, Ev.var, Ev.lags)
       /\ (Ev.columns => \A c \in 1..Ev.size : LET x == Column(Ev.xs, Ev.size, c)
                                               IN  CbdMean(x, Ev.var) /\ CbdVar(x, Ev.var))
(* The coefficients as functions of the random bits. base: the bits of the *)
(* stream; out: the coefficients; flips: for every bit, the coefficients   *)
(* that change when it is flipped and by how much. When every bit moves at *)
(* most two coefficients, the sampler cuts bits, and then each coefficient *)
(* must be a sum of 2v bits minus a sum of 2v others, all disjoint.        *)
Flat == \A b \in 1..Len(Ev.flips) : Len(Ev.flips[b]) <= 2
Sign(b, d) == IF Ev.base[b] = 1 THEN -d ELSE d
Bits(i, sgn) == {b \in 1..Len(Ev.flips) : \E c \in 1..Len(Ev.flips[b]) : Ev.flips[b][c][1] = i /\ Sign(b, Ev.flips[b][c][2]) = sgn}
RECURSIVE Weight(_)
Weight(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN Ev.base[b] + Weight(S \ {b})
Flips == /\ Ok("flips") /\ Keep
         /\ AllWithin(Ev.out, 2 * Ev.var) /\ Len(Ev.out) = Ev.size
         /\ (Flat => /\ \A b \in 1..Len(Ev.flips) : Len(Ev.flips[b]) <= 1
                     /\ \A i \in 1..Ev.size :
                          LET p == Bits(i, 1)  m == Bits(i, -1) IN
                          /\ Cardinality(p) = 2 * Ev.var /\ Cardinality(m) = 2 * Ev.var
                          /\ Cardinality({b \in 1..Len(Ev.flips) : \E c \in 1..Len(Ev.flips[b]) : Ev.flips[b][c][1] = i}) = 4 * Ev.var
                          /\ Ev.out[i] = Weight(p) - Weight(m))
(* error polynomials: the same small integers in every residue *)
Small == /\ Ok("small") /\ Keep
         /\ \A i \in 1..Len(Ev.polys) : IsRows(Ev.polys[i], Ev.n, Ev.ms)
         /\ LET q == Modulus(Ev.ms)
                x == Cat([i \in 1..Len(Ev.polys) |-> SmallInts(PLift(Ev.polys[i], Ev.ms), q, 2 * Ev.var)])
            IN  CbdOk(x, Ev.var) /\ CbdFree(x, Ev.var, 20)
                /\ \A c \in 1..Ev.n : LET y == Column(x, Ev.n, c) IN CbdMean(y, Ev.var) /\ CbdVar(y, Ev.var)
Secret == /\ Ok("secret") /\ Keep
          /\ CbdOk(Ev.xs, Ev.var) /\ CbdFree(Ev.xs, Ev.var, 20)
          /\ \A c \in 1..Ev.n : LET y == Column(Ev.xs, Ev.n, c) IN CbdMean(y, Ev.var) /\ CbdVar(y, Ev.var)

(* uniform residues *)
K == 8
UniformOk(x, q) ==
    /\ IsPoly(x, Len(x), q)
    /\ IF BLt(q, BOf(600))
       THEN LET k == BToInt(q) IN UniHist(LowOf(x, k), k) /\ UniFree(LowOf(x, k), k, 12)
       ELSE /\ UniHist(BucketsOf(x, q, K), K) /\ UniFree(BucketsOf(x, q, K), K, 12)
            /\ (BBits(q) > 20 => UniHist(LowOf(x, K), K) /\ UniFree(LowOf(x, K), K, 12))
            \* so many different values that none is drawn twice
            /\ (BBits(q) >= 62 => Cardinality({x[i] : i \in 1..Len(x)}) = Len(x))
Uniform == Ok("uniform") /\ Keep /\ UniformOk(Ev.xs, Ev.q)
(* polynomials: every residue row on its own, and rows independent *)
RowOf(i) == Cat([j \in 1..Len(Ev.polys) |-> Ev.polys[j][i]])
Poly == /\ Ok("poly") /\ Keep
        /\ \A j \in 1..Len(Ev.polys) : IsRows(Ev.polys[j], Ev.n, Ev.ms)
        /\ \A i \in 1..Len(Ev.ms) : UniformOk(RowOf(i), Ev.ms[i])
        /\ \A i, j \in 1..Len(Ev.ms) : i < j =>
              UniIndep(BucketsOf(RowOf(i), Ev.ms[i], K), BucketsOf(RowOf(j), Ev.ms[j], K), K)
        /\ Cardinality({Ev.polys[j] : j \in 1..Len(Ev.polys)}) = Len(Ev.polys)

(* expansion of a seed: the same polynomial whenever it is expanded, and   *)
(* a different one, in every residue, for every other seed                 *)
Key == <<Ev.ctx, Ev.rep, Ev.seed>>
Seed == /\ Ok("seed")
        /\ IsRows(Ev.rows, Ev.n, Ev.ms)
        /\ IF Key \in DOMAIN known THEN known[Key] = Ev.rows /\ Keep
           ELSE /\ \A k \in DOMAIN known : (k[1] = Ev.ctx /\ k[3] # Ev.seed) =>
                      \A i \in 1..Len(Ev.ms) : known[k][i] # Ev.rows[i]
                /\ known' = [k \in (DOMAIN known) \cup {Key} |-> IF k = Key THEN Ev.rows ELSE known[k]]
Forget == Ok("forget") /\ known' = [k \in {} |-> 0]

Init == l = 1 /\ known = [k \in {} |-> 0]
Next == Cbd \/ Flips \/ Small \/ Secret \/ Uniform \/ Poly \/ Seed \/ Forget \/ (Finished /\ UNCHANGED <<l, known>>)
View == l
Alias == [l |-> l]
=============================================================================
