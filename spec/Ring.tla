-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Design of src/rq.rs: a polynomial is stored either as coefficients or   *)
(* as its values at the roots of X^N + 1; sums and products are computed   *)
(* on values, substitutions on either, inversion on values. Registers keep *)
(* the stored form next to the mathematical polynomial it stands for.      *)
(* Checked for every content of the registers: N = 2, primes in Primes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Primes, Exps
N == 2
Regs == 1..2
VARIABLES p, rep, st, val
vars == <<p, rep, st, val>>
F == 0..(p - 1)
Polys == [1..2 -> F]
Root == CHOOSE z \in 1..(p - 1) : (z * z) % p = p - 1
Roots == <<Root, p - Root>>
Eval(a, z) == (a[1] + a[2] * z) % p
Inv(x) == CHOOSE y \in 1..(p - 1) : (x * y) % p = 1
ToNtt(a) == <<Eval(a, Roots[1]), Eval(a, Roots[2])>>
\* interpolation: a1 = (v1+v2)/2, a2 = (v1-v2)/(2 z)
ToPow(v) == <<((v[1] + v[2]) * Inv(2)) % p, ((v[1] + p - v[2]) * Inv((2 * Root) % p)) % p>>
Abs(r, v) == IF r = "ntt" THEN ToPow(v) ELSE v
\* ring operations
Add(a, b) == <<(a[1] + b[1]) % p, (a[2] + b[2]) % p>>
Sub(a, b) == <<(a[1] + p - b[1]) % p, (a[2] + p - b[2]) % p>>
Mul(a, b) == <<(a[1] * b[1] + p * p - a[2] * b[2]) % p, (a[1] * b[2] + a[2] * b[1]) % p>>
Neg(a) == <<(p - a[1]) % p, (p - a[2]) % p>>
Subst(a, k) == IF k % 4 = 1 THEN a ELSE <<a[1], (p - a[2]) % p>>
\* the value at z of a(X^k) is the value of a at z^k, again one of the roots
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN 1 ELSE (z * Pow(z, k - 1)) % p
PermIdx(i, k) == CHOOSE j \in 1..2 : Roots[j] = Pow(Roots[i], k)

Init == /\ p \in Primes /\ rep = [r \in Regs |-> "pow"]
        /\ val \in [Regs -> [1..2 -> 0..(p - 1)]] /\ st = val
Change(r) == /\ rep' = [rep EXCEPT ![r] = IF @ = "pow" THEN "ntt" ELSE "pow"]
             /\ st' = [st EXCEPT ![r] = IF rep[r] = "pow" THEN ToNtt(@) ELSE ToPow(@)]
             /\ UNCHANGED <<p, val>>
Binary(d, a, b, StOp(_, _), ValOp(_, _)) ==
    /\ rep[a] = "ntt" /\ rep[b] = "ntt"
    /\ rep' = [rep EXCEPT ![d] = "ntt"]
    /\ st' = [st EXCEPT ![d] = StOp(st[a], st[b])]
    /\ val' = [val EXCEPT ![d] = ValOp(val[a], val[b])] /\ UNCHANGED p
PAdd(x, y) == <<(x[1] + y[1]) % p, (x[2] + y[2]) % p>>
PMul(x, y) == <<(x[1] * y[1]) % p, (x[2] * y[2]) % p>>
PSub(x, y) == <<(x[1] + p - y[1]) % p, (x[2] + p - y[2]) % p>>
Negate(d, a) == /\ rep' = [rep EXCEPT ![d] = rep[a]]
                /\ st' = [st EXCEPT ![d] = <<(p - st[a][1]) % p, (p - st[a][2]) % p>>]
                /\ val' = [val EXCEPT ![d] = Neg(val[a])] /\ UNCHANGED p
Substitute(d, a, k) ==
    /\ rep' = [rep EXCEPT ![d] = rep[a]]
    /\ st' = [st EXCEPT ![d] = IF rep[a] = "ntt" THEN <<st[a][PermIdx(1, k)], st[a][PermIdx(2, k)]>>
                               ELSE Subst(st[a], k)]
    /\ val' = [val EXCEPT ![d] = Subst(val[a], k)] /\ UNCHANGED p
Invert(d, a) ==
    /\ rep[a] = "ntt" /\ st[a][1] # 0 /\ st[a][2] # 0
    /\ rep' = [rep EXCEPT ![d] = "ntt"] /\ st' = [st EXCEPT ![d] = <<Inv(st[a][1]), Inv(st[a][2])>>]
    /\ val' = [val EXCEPT ![d] = CHOOSE x \in Polys : Mul(x, val[a]) = <<1, 0>>] /\ UNCHANGED p
Next == \/ \E r \in Regs : Change(r)
        \/ \E d, a, b \in Regs : \/ Binary(d, a, b, PAdd, Add) \/ Binary(d, a, b, PSub, Sub) \/ Binary(d, a, b, PMul, Mul)
        \/ \E d, a \in Regs : Negate(d, a) \/ Invert(d, a) \/ \E k \in Exps : Substitute(d, a, k)
Faithful == \A r \in Regs : Abs(rep[r], st[r]) = val[r]
Canonical == \A r \in Regs : st[r] \in Polys
=============================================================================
