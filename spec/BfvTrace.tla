------------------------------ MODULE BfvTrace ------------------------------
(***************************************************************************)
(* Recorded programs over ciphertext registers (src/bfv.rs, src/ksk.rs,    *)
(* src/rgsw.rs, src/omr.rs). The specification knows the secret key. Its   *)
(* state holds, per register, the ciphertext, the message it must encrypt  *)
(* and a bound for its noise derived from the program alone.               *)
(***************************************************************************)
EXTENDS Bfv, TraceBase, FiniteSets
VARIABLES P, s, zs, reg
svars == <<P, s, zs, reg>>

Ok(name) == IsEvent(name) /\ Returned(Ev)
(* a recorded ciphertext: level, parts as residue rows *)
WellFormed(c) == /\ c.lv \in 0..(Len(P.ms) - 1)
                 /\ Len(c.parts) >= 1
                 /\ \A i \in 1..Len(c.parts) : IsRows(c.parts[i], P.n, MsAt(P, c.lv))
Lifted(c) == [i \in 1..Len(c.parts) |-> PLift(c.parts[i], MsAt(P, c.lv))]
IsMsg(m) == IsPoly(m, P.n, P.t)

(* what a register holds: parts, level, phase, message, noise bound *)
Entry(c, lv, ph, m, b) == [c |-> c, lv |-> lv, ph |-> ph, m |-> m, b |-> b]
(* the new content of register Ev.d: parts as recorded, the phase the       *)
(* operation must have produced, message m, noise at most b                *)
Becomes(lv, nparts, ph, m, b) ==
    /\ WellFormed(Ev.ct) /\ Ev.ct.lv = lv
    /\ (nparts > 0 => Len(Ev.ct.parts) = nparts)
    /\ LET c == Lifted(Ev.ct)  q == QAt(P, lv)
           mine == Phase(c, s, q)
       IN  /\ mine = ph
           /\ BLe(Noise(P, lv, mine, m), b)
           /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, lv, mine, m, b) ELSE reg[r]]
    /\ UNCHANGED <<P, s, zs>>
(* the same where the phase is determined up to an error below err         *)
BecomesNear(lv, nparts, ph, err, m, b) ==
    /\ WellFormed(Ev.ct) /\ Ev.ct.lv = lv /\ Len(Ev.ct.parts) = nparts
    /\ LET c == Lifted(Ev.ct)  q == QAt(P, lv)
           mine == Phase(c, s, q)
       IN  /\ BLe(PNorm(PSub(mine, ph, q), q), err)
           /\ BLe(Noise(P, lv, mine, m), b)
           /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, lv, mine, m, b) ELSE reg[r]]
    /\ UNCHANGED <<P, s, zs>>
A == reg[Ev.a]
B == reg[Ev.b]
Q == QAt(P, A.lv)

(***************************************************************************)
(* Parameters and key. The slots of SIMD encoding are the points the       *)
(* decoder evaluates at: the decoding of X.                                *)
(***************************************************************************)
Start == /\ Ok("start") /\ IsBasis(Ev.ms) /\ BIsPrime(Ev.t)
         /\ P' = [n |-> Ev.n, t |-> Ev.t, ms |-> Ev.ms, var |-> Ev.var]
         /\ s' = Ev.s /\ Len(Ev.s) = Ev.n
         /\ zs' = Ev.zs
         /\ IsPoly(Ev.zs, Ev.n, Ev.t)
         /\ \A i \in 1..Ev.n : BModPow(Ev.zs[i], BOf(Ev.n), Ev.t) = BSub(Ev.t, <<1>>)
         /\ Cardinality({Ev.zs[i] : i \in 1..Ev.n}) = Ev.n
         /\ (Ev.generated => SecretMax(Ev.s) <= 2 * Ev.var)
         /\ reg' = [r \in {} |-> <<>>]
Encoded(enc, v, m) ==      \* m is the encoding of the values v
    /\ IsMsg(m)
    /\ IF enc = "simd" THEN PEvalAll(m, zs, P.t) = v
       ELSE m = [i \in 1..P.n |-> IF i <= Len(v) THEN v[i] ELSE <<>>]

(* encryption *)
Enc == /\ Ok("enc") /\ Ev.lv \in 0..(Len(P.ms) - 1)
       /\ Encoded(Ev.enc, Ev.v, Ev.m)
       /\ WellFormed(Ev.ct) /\ Ev.ct.lv = Ev.lv /\ Len(Ev.ct.parts) = 2
       /\ LET c == Lifted(Ev.ct)  ph == Phase(c, s, QAt(P, Ev.lv)) IN
          /\ BLe(Noise(P, Ev.lv, ph, Ev.m), FreshBound(P))
          /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, Ev.lv, ph, Ev.m, FreshBound(P)) ELSE reg[r]]
       /\ UNCHANGED <<P, s, zs>>
(* encryption of a polynomial of the ciphertext ring *)
EncPoly == /\ Ok("encpoly")
           /\ WellFormed(Ev.ct) /\ Ev.ct.lv = Ev.lv /\ Len(Ev.ct.parts) = 2
           /\ LET c == Lifted(Ev.ct)  q == QAt(P, Ev.lv)  ph == Phase(c, s, q)
                  p == PLift(Ev.poly, MsAt(P, Ev.lv))  m == NearestMsg(P, Ev.lv, ph) IN
              /\ BLe(PNorm(PSub(ph, p, q), q), ErrB(P))
              /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, Ev.lv, ph, m, Noise(P, Ev.lv, ph, m)) ELSE reg[r]]
           /\ UNCHANGED <<P, s, zs>>
(* a ciphertext made by hand: any noise below the limit *)
Craft == /\ Ok("craft") /\ WellFormed(Ev.ct)
         /\ LET lv == Ev.ct.lv  c == Lifted(Ev.ct)  ph == Phase(c, s, QAt(P, lv))  m == NearestMsg(P, lv, ph) IN
            reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, lv, ph, m, Noise(P, lv, ph, m)) ELSE reg[r]]
         /\ UNCHANGED <<P, s, zs>>
(* decryption *)
Dec == /\ Ok("dec") /\ UNCHANGED svars
       /\ Ev.lv = A.lv
       /\ IsMsg(Ev.m) /\ IsDecryption(P, A.lv, A.ph, Ev.m)
       /\ (InBudget(P, A.lv, A.b) => Ev.m = A.m)
       /\ Ev.coeffs = Ev.m /\ Ev.slots = PEvalAll(Ev.m, zs, P.t)
DecTrial == /\ Ok("trial") /\ UNCHANGED svars /\ Len(A.c) = 2
            /\ IsRows(Ev.r, P.n, MsAt(P, A.lv)) /\ PLift(Ev.r, MsAt(P, A.lv)) = A.ph
(* the noise report: bit length of the largest deviation from the encoding *)
(* Ev.ideal of the decrypted message Ev.m, which is Q m / t rounded somehow *)
NoiseOf == /\ Ok("noise") /\ UNCHANGED svars
           /\ IsDecryption(P, A.lv, A.ph, Ev.m)
           /\ IsRows(Ev.ideal, P.n, MsAt(P, A.lv))
           /\ \A ideal \in {PLift(Ev.ideal, MsAt(P, A.lv))} :
                 /\ BLe(Noise(P, A.lv, ideal, Ev.m), EncodeBound(P))
                 /\ Ev.bits = BBits(PNorm(PSub(A.ph, ideal, Q), Q))
           \* and the reported noise respects the bound of the program
           /\ InBudget(P, A.lv, A.b) => /\ BLe(Noise(P, A.lv, A.ph, NearestMsg(P, A.lv, A.ph)), A.b)
                                       /\ Ev.bits <= BBits(BAdd(BDiv(A.b, P.t), <<3>>))

(***************************************************************************)
(* Linear operations: exact on the noisy values                            *)
(***************************************************************************)
Add == /\ Ok("add") /\ A.lv = B.lv
       /\ Becomes(A.lv, 0, PAdd(A.ph, B.ph, Q), PAdd(A.m, B.m, P.t), BAdd(A.b, B.b))
Sub == /\ Ok("sub") /\ A.lv = B.lv
       /\ Becomes(A.lv, 0, PSub(A.ph, B.ph, Q), PSub(A.m, B.m, P.t), BAdd(A.b, B.b))
(* adding the scaled polynomial of the message Ev.m *)
AddPlain == /\ Ok("addpt") /\ IsMsg(Ev.m)
            /\ IsRows(Ev.poly, P.n, MsAt(P, A.lv))
            /\ LET p == PLift(Ev.poly, MsAt(P, A.lv)) IN
               /\ BLe(Noise(P, A.lv, p, Ev.m), EncodeBound(P))
               /\ Becomes(A.lv, 0, PAdd(A.ph, p, Q), PAdd(A.m, Ev.m, P.t), BAdd(A.b, EncodeBound(P)))
(* any polynomial: only the noisy value is determined *)
AddPoly == /\ Ok("addpoly") /\ IsRows(Ev.poly, P.n, MsAt(P, A.lv))
           /\ LET p == PLift(Ev.poly, MsAt(P, A.lv))  ph == PAdd(A.ph, p, Q)  m == NearestMsg(P, A.lv, ph)
              IN  Becomes(A.lv, 0, ph, m, Noise(P, A.lv, ph, m))
(* multiplication by an integer polynomial v given by centered residues    *)
Signed(v, q) == [i \in 1..Len(v) |-> IF BLt(q, BMul(<<2>>, v[i])) THEN BNegMod(BSub(q, v[i]), P.t) ELSE BMod(v[i], P.t)]
TimesPh(x, v) == PMul(x.ph, v, QAt(P, x.lv))
TimesM(x, v) == PMul(x.m, Signed(v, QAt(P, x.lv)), P.t)
TimesB(x, v) == BMul(x.b, L1(v, QAt(P, x.lv)))
MulPlain == /\ Ok("mulpt") /\ IsMsg(Ev.m)
            /\ LET v == PRed(Ev.m, Q)
                   b == BMul(A.b, L1(Ev.m, BMul(<<2>>, P.t)))       \* the values as they are, not centered
               IN  Becomes(A.lv, 0, TimesPh(A, v), PMul(A.m, Ev.m, P.t), b)
MulPoly == /\ Ok("mulpoly") /\ IsRows(Ev.poly, P.n, MsAt(P, A.lv))
           /\ LET v == PLift(Ev.poly, MsAt(P, A.lv))
              IN  Becomes(A.lv, 0, TimesPh(A, v), TimesM(A, v), TimesB(A, v))
MulBig == /\ Ok("mulbig")
          /\ LET v == PConst(BMod(Ev.k, Q), P.n)
             IN  Becomes(A.lv, 0, TimesPh(A, v), TimesM(A, v), TimesB(A, v))
RECURSIVE SumPoly(_, _, _)
SumPoly(f, i, q) == IF i = Len(f) THEN f[i] ELSE PAdd(f[i], SumPoly(f, i + 1, q), q)
Inner == /\ Ok("inner") /\ Len(Ev.as) = Len(Ev.polys)
         /\ LET k == Len(Ev.as)  x == [i \in 1..k |-> reg[Ev.as[i]]]
                lv == x[1].lv  q == QAt(P, lv)
                v == [i \in 1..k |-> PLift(Ev.polys[i], MsAt(P, lv))]
            IN  /\ \A i \in 1..k : x[i].lv = lv
                /\ Becomes(lv, 0, SumPoly([i \in 1..k |-> TimesPh(x[i], v[i])], 1, q),
                           SumPoly([i \in 1..k |-> TimesM(x[i], v[i])], 1, P.t),
                           SumSeq([i \in 1..k |-> TimesB(x[i], v[i])]))

(***************************************************************************)
(* Products                                                                *)
(***************************************************************************)
Mul == /\ Ok("mul") /\ A.lv = B.lv /\ WellFormed(Ev.ct) /\ Ev.ct.lv = A.lv
       /\ LET c == Lifted(Ev.ct)
              b == MulBound(P, A.lv, s, Len(A.c), A.b, Len(B.c), B.b)
              ph == Phase(c, s, Q)
              m == PMul(A.m, B.m, P.t)
          IN  /\ Len(c) = Len(A.c) + Len(B.c) - 1
              /\ (AnyNearHalf(A.c, Q) \/ AnyNearHalf(B.c, Q) \/ IsProduct(P, A.lv, A.c, B.c, c))
              /\ BLe(Noise(P, A.lv, ph, m), b)
              /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN Entry(c, A.lv, ph, m, b) ELSE reg[r]]
       /\ UNCHANGED <<P, s, zs>>
(* ties of the rounding may differ by one in every part *)
RoundErr(k) == Geo(BOf(P.n * SecretMax(s)), k)
Fresh == ErrB(P)
MulRelin == /\ Ok("mulrelin") /\ A.lv = B.lv /\ Len(A.c) = 2 /\ Len(B.c) = 2
            /\ LET ks == SwitchBound(P, A.lv, Fresh)
                   near == AnyNearHalf(A.c, Q) \/ AnyNearHalf(B.c, Q)
                   T == RoundedTensor(P, A.lv, A.c, B.c)
                   b == BAdd(MulBound(P, A.lv, s, 2, A.b, 2, B.b), BMul(P.t, ks))
               IN  BecomesNear(A.lv, 2, Phase(T, s, Q), IF near THEN Q ELSE BAdd(ks, RoundErr(3)),
                               PMul(A.m, B.m, P.t), b)
(* relinearizing the third part of a product *)
Relin == /\ Ok("relin") /\ Len(A.c) = 3
         /\ LET ks == SwitchBound(P, A.lv, Fresh)
            IN  BecomesNear(A.lv, 2, A.ph, ks, A.m, BAdd(A.b, BMul(P.t, ks)))

(***************************************************************************)
(* Automorphisms                                                           *)
(***************************************************************************)
Galois == /\ Ok("galois") /\ Len(A.c) = 2
          /\ \A k \in {BToInt(BMod(Ev.k, BOf(2 * P.n)))} : k % 2 = 1 /\ LET ks == SwitchBound(P, A.lv, Fresh)
             IN  BecomesNear(A.lv, 2, PSubst(A.ph, k, Q), ks, PSubst(A.m, k, P.t), BAdd(A.b, BMul(P.t, ks)))
(* slots of exponent 3^j: both rows rotate left by j; 2n - 1 swaps them    *)
Half == P.n \div 2
Rotated(v, j) == [i \in 1..P.n |-> IF i <= Half THEN v[1 + ((i - 1 + j) % Half)] ELSE v[Half + 1 + ((i - 1 - Half + j) % Half)]]
Swapped(v) == [i \in 1..P.n |-> IF i <= Half THEN v[i + Half] ELSE v[i - Half]]
Slots == /\ Ok("rotated") /\ UNCHANGED svars
         /\ Ev.after = (IF Ev.swap THEN Swapped(Rotated(Ev.before, Ev.j)) ELSE Rotated(Ev.before, Ev.j))

(***************************************************************************)
(* Key switching and external products. A key is a sequence of pairs; pair *)
(* i encrypts gadget element i times f. Its errors bound what it adds.     *)
(***************************************************************************)
Gadget(ms, i) == BMul(Star(ms, i), Tilde(ms, i))
KeyParts(k, lv) == [i \in 1..Len(k.c0) |-> <<PLift(k.c0[i], MsAt(P, lv)), PLift(k.c1[i], MsAt(P, lv))>>]
KeyErr(kp, lv, ctlv, f) ==      \* largest error of the key for f
    LET q == QAt(P, lv)  g == MsAt(P, ctlv)
        err(i) == PNorm(PSub(Phase(kp[i], s, q), PScale(f, BMod(Gadget(g, i), q), q), q), q)
        RECURSIVE mx(_)
        mx(i) == IF i > Len(kp) THEN <<>> ELSE BMax(err(i), mx(i + 1))
    IN  mx(1)
KeyShape(k, lv, ctlv) ==
    /\ Len(k.c0) = Len(MsAt(P, ctlv)) /\ Len(k.c1) = Len(k.c0)
    /\ \A i \in 1..Len(k.c0) : IsRows(k.c0[i], P.n, MsAt(P, lv)) /\ IsRows(k.c1[i], P.n, MsAt(P, lv))
(* a key made by Ksk::new for the polynomial f *)
FreshKey(k, lv, ctlv, f) == KeyShape(k, lv, ctlv) /\ BLe(KeyErr(KeyParts(k, lv), lv, ctlv, f), ErrB(P))
KeySwitch ==
    /\ Ok("keyswitch") /\ UNCHANGED svars
    /\ LET lv == Ev.klv  ctlv == Ev.ctlv  q == QAt(P, ctlv)
           f == PLift(Ev.f, MsAt(P, lv))
           d == PLift(Ev.x, MsAt(P, ctlv))
           out == <<PLift(Ev.r0, MsAt(P, ctlv)), PLift(Ev.r1, MsAt(P, ctlv))>>
       IN  /\ IsRows(Ev.r0, P.n, MsAt(P, ctlv)) /\ IsRows(Ev.r1, P.n, MsAt(P, ctlv))
           /\ FreshKey(Ev.key, lv, ctlv, f)
           /\ BLe(PNorm(PSub(Phase(out, s, q), PMul(d, PRed(f, q), q), q), q), SwitchBound(P, ctlv, ErrB(P)))
(* external product with an RGSW encryption of the polynomial g: either    *)
(* encrypted directly, or assembled from encryptions of gadget multiples   *)
External ==
    /\ Ok("external") /\ Len(A.c) = 2
    /\ LET lv == A.lv
           g == PLift(Ev.g, MsAt(P, lv))
           gs == PMul(g, PInt(s, Q), Q)
           k0 == KeyParts(Ev.k0, lv)  k1 == KeyParts(Ev.k1, lv)
           e0 == KeyErr(k0, lv, lv, gs)  e1 == KeyErr(k1, lv, lv, g)
           err == BAdd(SwitchBound(P, lv, e0), SwitchBound(P, lv, e1))
           v == g
       IN  /\ KeyShape(Ev.k0, lv, lv) /\ KeyShape(Ev.k1, lv, lv)
           /\ (Ev.direct => BLe(e0, ErrB(P)) /\ BLe(e1, ErrB(P)))
           \* assembled: the half times s went through an external product with an
           \* RGSW encryption of s whose errors are fresh
           /\ (~Ev.direct => /\ BLe(e1, ErrB(P))
                             /\ BLe(e0, BAdd(BMul(BMul(BOf(P.n), BOf(MaxI(1, SecretMax(s)))), e1),
                                             BMul(<<2>>, SwitchBound(P, lv, ErrB(P))))))
           /\ BecomesNear(lv, 2, PMul(A.ph, g, Q), err, TimesM(A, v), BAdd(TimesB(A, v), BMul(P.t, err)))

Init == l = 1 /\ P = <<>> /\ s = <<>> /\ zs = <<>> /\ reg = <<>>
Next == \/ Start \/ Enc \/ EncPoly \/ Craft \/ Dec \/ DecTrial \/ NoiseOf
        \/ Add \/ Sub \/ AddPlain \/ AddPoly \/ MulPlain \/ MulPoly \/ MulBig \/ Inner
        \/ Mul \/ MulRelin \/ Relin \/ Galois \/ Slots \/ KeySwitch \/ External
        \/ Finished /\ UNCHANGED <<l, svars>>
View == l
Alias == [l |-> l]
=============================================================================
