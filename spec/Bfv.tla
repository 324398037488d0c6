-------------------------------- MODULE Bfv --------------------------------
(***************************************************************************)
(* The BFV scheme of src/bfv.rs, src/ksk.rs and src/rgsw.rs as mathematics:*)
(* what a ciphertext stands for, what decryption returns, how operations   *)
(* act on messages and by how much they may increase the noise.            *)
(*                                                                         *)
(* P = [n, t, ms, var]: degree, plaintext modulus, ciphertext moduli,      *)
(* variance of the samplers. A ciphertext at level lv is a sequence of     *)
(* polynomials modulo Q(lv), the product of all but the last lv moduli.    *)
(* Its noisy value (phase) is c0 + c1 s + c2 s^2 + ...; it encrypts m with *)
(* noise e when t * phase = Q * m + e modulo t * Q.                        *)
(***************************************************************************)
EXTENDS Rns

MsAt(P, lv) == SubSeq(P.ms, 1, Len(P.ms) - lv)
QAt(P, lv) == Modulus(MsAt(P, lv))
ErrB(P) == BOf(2 * P.var)            \* largest error of the samplers

(* noisy value of the parts c under the secret s (small integers) *)
RECURSIVE PhaseFrom(_, _, _, _)
PhaseFrom(c, s, q, i) == IF i = Len(c) THEN c[i]
                         ELSE PAdd(c[i], PMul(s, PhaseFrom(c, s, q, i + 1), q), q)
Phase(c, s, q) == PhaseFrom(c, PInt(s, q), q, 1)

(* noise of a phase relative to the message m, in units of 1/t *)
Noise(P, lv, phase, m) ==
    LET q == QAt(P, lv)  tq == BMul(P.t, q)
    IN  PNorm(PSub(PScale(phase, P.t, tq), PScale(m, q, tq), tq), tq)
(* decryption rounds t * phase / Q; it returns m whenever the noise of m is*)
(* below Q / 2. At ties either neighbour may be returned.                  *)
IsDecryption(P, lv, phase, vals) ==
    LET q == QAt(P, lv)
    IN  /\ Len(vals) = P.n
        /\ \A k \in 1..P.n : BLt(vals[k], P.t)
        /\ PIsScaled(phase, q, P.t, q, vals, P.t)
NearestMsg(P, lv, phase) ==
    LET q == QAt(P, lv)
    IN  PRoundMod(phase, P.t, q, P.t)
(* within the budget: further from a tie than the precision of rescaling *)
InBudget(P, lv, e) == LET q == QAt(P, lv)
                      IN  BLt(BMul(<<2>>, BAdd(e, BAdd(BDiv(q, BPow2(Slack)), <<1>>))), q)

(***************************************************************************)
(* Analytic noise bounds (in units of 1/t as Noise). Encoding a message    *)
(* may be off by less than 2.                                              *)
(***************************************************************************)
FreshBound(P) == BMul(P.t, BAdd(ErrB(P), <<2>>))
EncodeBound(P) == BMul(P.t, <<2>>)
(* key switching with digits below the moduli and key errors up to err *)
RECURSIVE SumSeq(_)
SumSeq(s) == IF Len(s) = 0 THEN <<>> ELSE BAdd(Head(s), SumSeq(Tail(s)))
SwitchBound(P, lv, err) == BMul(BMul(BOf(P.n), SumSeq(MsAt(P, lv))), err)
(* largest coefficient of the secret *)
RECURSIVE MaxAbsFrom(_, _)
MaxAbsFrom(s, i) == IF i > Len(s) THEN 0
                    ELSE LET a == IF s[i] < 0 THEN -s[i] ELSE s[i] IN MaxI(a, MaxAbsFrom(s, i + 1))
SecretMax(s) == MaxAbsFrom(s, 1)
(* the geometric sum 1 + x + ... + x^(k-1), x = n * |s| *)
RECURSIVE Geo(_, _)
Geo(x, k) == IF k = 0 THEN <<>> ELSE BAdd(<<1>>, BMul(x, Geo(x, k - 1)))
(* product of ciphertexts with k1 and k2 parts and noises e1, e2:          *)
(* t c1 c2 / Q = m1 e2 + m2 e1 + e1 e2 / Q + t (r2 e1 + r1 e2) + rounding,  *)
(* r the multiple of Q in the phase computed over the integers             *)
MulBound(P, lv, s, k1, e1, k2, e2) ==
    LET q == QAt(P, lv)  x == BOf(P.n * SecretMax(s))  nn == BOf(P.n)
        r1 == BAdd(Geo(x, k1), <<2>>)  r2 == BAdd(Geo(x, k2), <<2>>)
        a == BMul(BMul(nn, P.t), BAdd(e1, e2))
        b == BAdd(BDiv(BMul(nn, BMul(e1, e2)), q), <<1>>)
        c == BMul(BMul(nn, P.t), BAdd(BMul(r2, e1), BMul(r1, e2)))
        d == BMul(P.t, BMul(<<2>>, Geo(x, k1 + k2 - 1)))
    IN  BAdd(BAdd(a, b), BAdd(c, d))

(***************************************************************************)
(* The tensor product over the integers of centered representatives,       *)
(* computed modulo an M too large to wrap around.                          *)
(***************************************************************************)
WideM(P, lv) == BPow2(2 * BBits(QAt(P, lv)) + BBits(BOf(P.n)) + 8)
RECURSIVE TensorSum(_, _, _, _, _)
TensorSum(a, b, k, i, M) ==          \* sum of a_i b_(k-i), i from the given one
    IF i > Len(a) THEN PZero(Len(a[1]))
    ELSE IF k - i + 1 \in 1..Len(b)
         THEN PAdd(PMul(a[i], b[k - i + 1], M), TensorSum(a, b, k, i + 1, M), M)
         ELSE TensorSum(a, b, k, i + 1, M)
Tensor(P, lv, a, b) ==
    LET q == QAt(P, lv)  M == WideM(P, lv)
        ca == [i \in 1..Len(a) |-> PCentered(a[i], q, M)]
        cb == [i \in 1..Len(b) |-> PCentered(b[i], q, M)]
    IN  [k \in 1..(Len(a) + Len(b) - 1) |-> TensorSum(ca, cb, k, 1, M)]
AnyNearHalf(c, q) == \E i \in 1..Len(c) : PNearHalf(c[i], q)
IsProduct(P, lv, a, b, out) ==
    LET q == QAt(P, lv)  M == WideM(P, lv)  T == Tensor(P, lv, a, b)
    IN  /\ Len(out) = Len(T)
        /\ \A k \in 1..Len(T) : PIsScaled(T[k], M, P.t, q, out[k], q)
(* one of the admissible roundings *)
RoundedTensor(P, lv, a, b) ==
    LET q == QAt(P, lv)  M == WideM(P, lv)  T == Tensor(P, lv, a, b)
    IN  [k \in 1..Len(T) |-> PRoundSigned(T[k], M, P.t, q, q)]
=============================================================================
