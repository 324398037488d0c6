------------------------------- MODULE BfvAlg -------------------------------
(***************************************************************************)
(* The algorithms of src/bfv.rs, src/ksk.rs, src/rgsw.rs and src/omr.rs on *)
(* polynomials, with every random choice an argument.  BfvDesign.tla       *)
(* explores them for every choice of small parameters and checks that they *)
(* satisfy the relations BfvTrace.tla demands of recorded executions.      *)
(***************************************************************************)
EXTENDS Bfv
Inv(a, p) == BModPow(a, BSub(p, <<2>>), p)
(* Plaintext::to_poly: -1/t times [Q m]_t, modulo every ciphertext modulus *)
EncodeAlg(P, lv, m) ==
    LET ms == MsAt(P, lv)  q == QAt(P, lv)
        r == PScale(m, BMod(q, P.t), P.t)
        row(i) == PScale(PRed(r, ms[i]), BNegMod(Inv(BMod(P.t, ms[i]), ms[i]), ms[i]), ms[i])
    IN  PLift([i \in 1..Len(ms) |-> row(i)], ms)
(* SecretKey::encrypt_poly with mask a and error e (small integers) *)
EncryptAlg(P, lv, p, s, a, e) ==
    LET q == QAt(P, lv)
    IN  <<PSub(PAdd(p, PInt(e, q), q), PMul(a, PInt(s, q), q), q), a>>
DecryptAlg(P, lv, c, s) == NearestMsg(P, lv, Phase(c, s, QAt(P, lv)))
(* linear operations: parts one has and the other does not are taken over, *)
(* negated when they are subtracted                                        *)
Part(c, i, n) == IF i <= Len(c) THEN c[i] ELSE PZero(n)
Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
AddAlg(P, lv, a, b) == [i \in 1..Longer(a, b) |-> PAdd(Part(a, i, P.n), Part(b, i, P.n), QAt(P, lv))]
SubAlg(P, lv, a, b) == [i \in 1..Longer(a, b) |-> PSub(Part(a, i, P.n), Part(b, i, P.n), QAt(P, lv))]
AddPolyAlg(P, lv, a, p) == [a EXCEPT ![1] = PAdd(a[1], p, QAt(P, lv))]
MulPolyAlg(P, lv, a, p) == [i \in 1..Len(a) |-> PMul(a[i], p, QAt(P, lv))]
(* Ksk::new for f: pair i encrypts gadget element i times f *)
KeyAlg(P, lv, f, s, as, es) ==
    LET ms == MsAt(P, lv)  q == QAt(P, lv)
    IN  [i \in 1..Len(ms) |->
            EncryptAlg(P, lv, PScale(f, BMod(BMul(Star(ms, i), Tilde(ms, i)), q), q), s, as[i], es[i])]
(* Ksk::key_switch: digits are the residues, lifted to the whole basis *)
SwitchAlg(P, lv, d, key) ==
    LET ms == MsAt(P, lv)  q == QAt(P, lv)
        RECURSIVE sum(_, _)
        sum(i, j) == IF i > Len(ms) THEN PZero(P.n)
                     ELSE PAdd(PMul(PRed(d, ms[i]), key[i][j], q), sum(i + 1, j), q)
    IN  <<sum(1, 1), sum(1, 2)>>
RelinAlg(P, lv, c, rlk) ==
    LET q == QAt(P, lv)  w == SwitchAlg(P, lv, c[3], rlk)
    IN  <<PAdd(c[1], w[1], q), PAdd(c[2], w[2], q)>>
GaloisAlg(P, lv, c, k, gk) ==
    LET q == QAt(P, lv)  w == SwitchAlg(P, lv, PSubst(c[2], k, q), gk)
    IN  <<PAdd(PSubst(c[1], k, q), w[1], q), w[2]>>
ExternalAlg(P, lv, c, k0, k1) ==
    LET q == QAt(P, lv)  u == SwitchAlg(P, lv, c[1], k1)  v == SwitchAlg(P, lv, c[2], k0)
    IN  <<PAdd(u[1], v[1], q), PAdd(u[2], v[2], q)>>
MulAlg(P, lv, a, b) == RoundedTensor(P, lv, a, b)
=============================================================================
