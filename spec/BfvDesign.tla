------------------------------ MODULE BfvDesign ------------------------------
(***************************************************************************)
(* The scheme for small parameters, explored exhaustively: every secret,   *)
(* message, mask and error of the given sets, two registers, sequences of  *)
(* operations. Invariants: the noise never exceeds the bound computed from *)
(* the program alone, decryption returns the message whenever that bound   *)
(* is within the budget, and every algorithm lands where BfvTrace.tla      *)
(* demands. These are the operators the recordings of the code are judged  *)
(* with, so a bound that is too small, or a relation the algorithms do not *)
(* satisfy, shows here.                                                    *)
(***************************************************************************)
EXTENDS BfvAlg, Integers, Sequences, FiniteSets
CONSTANTS Deg, Tt, Moduli, Var, SecretSet, MaskSet, ErrSet, MsgTop, Ops, Depth
VARIABLES s, x, y, steps, last
vars == <<s, x, y, steps, last>>
P == [n |-> Deg, t |-> BOf(Tt), ms |-> [i \in 1..Len(Moduli) |-> BOf(Moduli[i])], var |-> Var]
Vec(S) == [1..Deg -> S]
Msgs == {[i \in 1..Deg |-> BOf(v[i])] : v \in Vec(0..MsgTop)}
Secrets == Vec(SecretSet)
Errs == Vec(ErrSet)
RECURSIVE RampFrom(_, _, _)
RampFrom(a, q, i) == IF i > Deg THEN <<>> ELSE <<BMod(BOf(a * i * i + i - 1), q)>> \o RampFrom(a, q, i + 1)
Masks(lv) == {RampFrom(a, QAt(P, lv), 1) : a \in MaskSet}
Levels == 0..(Len(Moduli) - 1)
Entry(c, lv, m, b) == [c |-> c, lv |-> lv, m |-> m, b |-> b]
Ph(r) == Phase(r.c, s, QAt(P, r.lv))
Made(name, r) == /\ y' = x /\ x' = r /\ steps' = steps + 1 /\ last' = name /\ UNCHANGED s
Can(name) == name \in Ops /\ steps < Depth
B0 == ErrB(P)
Ks(lv) == SwitchBound(P, lv, B0)
Q == QAt(P, x.lv)
MsgOf(p, q, sc) == [i \in 1..Deg |-> IF BLt(q, BMul(<<2>>, p[i])) THEN BNegMod(BSub(q, p[i]), P.t) ELSE BMod(p[i], P.t)]

NoReg == [c |-> <<>>, lv |-> 0, m |-> <<>>, b |-> <<>>]
Init == s \in Secrets /\ x = NoReg /\ y = NoReg /\ steps = 0 /\ last = "none"
Enc == /\ Can("enc")
       /\ \E lv \in (IF y = NoReg /\ x = NoReg THEN Levels ELSE IF y = NoReg THEN {x.lv} ELSE {}) :
          \E m \in Msgs, a \in Masks(lv), e \in Errs :
             Made("enc", Entry(EncryptAlg(P, lv, EncodeAlg(P, lv, m), s, a, e), lv, m, FreshBound(P)))
(* any two parts at all: the message is what they decrypt to *)
Any == /\ Can("any") /\ y = NoReg
       /\ \E a, b \in 0..(BToInt(QAt(P, 0)) - 1) :
             LET c == <<<<BOf(a)>>, <<BOf(b)>>>>  ph == Phase(c, s, QAt(P, 0))  m == NearestMsg(P, 0, ph)
             IN  Made("any", Entry(c, 0, m, Noise(P, 0, ph, m)))
Two == x # NoReg /\ y # NoReg /\ x.lv = y.lv
One == x # NoReg
Add == /\ Can("add") /\ Two /\ Made("add", Entry(AddAlg(P, x.lv, x.c, y.c), x.lv, PAdd(x.m, y.m, P.t), BAdd(x.b, y.b)))
Sub == /\ Can("sub") /\ Two /\ Made("sub", Entry(SubAlg(P, x.lv, x.c, y.c), x.lv, PSub(x.m, y.m, P.t), BAdd(x.b, y.b)))
AddPt == /\ Can("addpt") /\ One /\ \E m \in Msgs :
            Made("addpt", Entry(AddPolyAlg(P, x.lv, x.c, EncodeAlg(P, x.lv, m)), x.lv, PAdd(x.m, m, P.t), BAdd(x.b, EncodeBound(P))))
MulPt == /\ Can("mulpt") /\ One /\ \E m \in Msgs :
            Made("mulpt", Entry(MulPolyAlg(P, x.lv, x.c, PRed(m, Q)), x.lv, PMul(x.m, m, P.t), BMul(x.b, L1(m, BMul(<<2>>, P.t)))))
(* integer polynomials with negative coefficients *)
MulPoly == /\ Can("mulpoly") /\ One /\ \E v \in Vec(ErrSet) :
            LET p == PInt(v, Q)
            IN  Made("mulpoly", Entry(MulPolyAlg(P, x.lv, x.c, p), x.lv, PMul(x.m, MsgOf(p, Q, 0), P.t), BMul(x.b, L1(p, Q))))
Mul == /\ Can("mul") /\ Two /\ Len(x.c) + Len(y.c) <= 5
       /\ Made("mul", Entry(MulAlg(P, x.lv, x.c, y.c), x.lv, PMul(x.m, y.m, P.t),
                            MulBound(P, x.lv, s, Len(x.c), x.b, Len(y.c), y.b)))
Keys(lv, f) == \E a \in Masks(lv), e \in Errs : TRUE
KeyOf(lv, f, a, e) ==   \* one mask and error, varied over the pairs
    LET k == Len(MsAt(P, lv))  q == QAt(P, lv)
    IN  KeyAlg(P, lv, f, s, [i \in 1..k |-> PScale(a, BOf(2 * i + 1), q)],
               [i \in 1..k |-> IF i % 2 = 1 THEN e ELSE [j \in 1..Deg |-> -e[j]]])
SP == PInt(s, Q)
Relin == /\ Can("relin") /\ One /\ Len(x.c) = 3
         /\ \E a \in Masks(x.lv), e \in Errs :
            Made("relin", Entry(RelinAlg(P, x.lv, x.c, KeyOf(x.lv, PMul(SP, SP, Q), a, e)), x.lv, x.m, BAdd(x.b, BMul(P.t, Ks(x.lv)))))
Galois == /\ Can("galois") /\ One /\ Len(x.c) = 2
          /\ \E a \in Masks(x.lv), e \in Errs, k \in {j \in 1..(2 * Deg) : j % 2 = 1} :
             Made("galois", Entry(GaloisAlg(P, x.lv, x.c, k, KeyOf(x.lv, PSubst(SP, k, Q), a, e)), x.lv,
                                  PSubst(x.m, k, P.t), BAdd(x.b, BMul(P.t, Ks(x.lv)))))
External == /\ Can("external") /\ One /\ Len(x.c) = 2
            /\ \E a \in Masks(x.lv), e \in Errs, v \in Vec({0, 1, -1}) :
               LET g == PInt(v, Q)
                   k0 == KeyOf(x.lv, PMul(g, SP, Q), a, e)
                   k1 == KeyOf(x.lv, g, PScale(a, <<5>>, Q), e)
               IN  Made("external", Entry(ExternalAlg(P, x.lv, x.c, k0, k1), x.lv, PMul(x.m, MsgOf(g, Q, 0), P.t),
                                 BAdd(BMul(x.b, L1(g, Q)), BMul(P.t, BMul(<<2>>, Ks(x.lv))))))
Next == Enc \/ Any \/ Add \/ Sub \/ AddPt \/ MulPt \/ MulPoly \/ Mul \/ Relin \/ Galois \/ External

(* the algorithms satisfy what is demanded of recordings *)
NoiseWithin == One => BLe(Noise(P, x.lv, Ph(x), x.m), x.b)
Decrypts == (One /\ InBudget(P, x.lv, x.b)) => DecryptAlg(P, x.lv, x.c, s) = x.m
DecIsDecryption == One => IsDecryption(P, x.lv, Ph(x), DecryptAlg(P, x.lv, x.c, s))
Product == last' = "mul" => IsProduct(P, x.lv, x.c, y.c, x'.c)
ExactPhase ==
    LET ph == Phase(x'.c, s, Q) IN
    /\ last' = "add" => ph = PAdd(Ph(x), Ph(y), Q)
    /\ last' = "sub" => ph = PSub(Ph(x), Ph(y), Q)
    /\ last' = "relin" => BLe(PNorm(PSub(ph, Ph(x), Q), Q), Ks(x.lv))
Refines == [][Product /\ ExactPhase]_vars
=============================================================================
