------------------------------ MODULE ModArith ------------------------------
(***************************************************************************)
(* Arithmetic modulo p: what each operation of src/modulus.rs has to       *)
(* return. The arguments are BigNats; every definition is the mathematical *)
(* one, independent of how a machine word computes it. (WordArith.tla      *)
(* models the word-level algorithms and shows that they satisfy these      *)
(* definitions.)                                                           *)
(***************************************************************************)
EXTENDS BigPoly

WordTop == BPow2(64)
ModulusDomain(p) == BLe(<<2>>, p) /\ BLt(p, BPow2(62))

IsReduce(p, a, r)     == r = BMod(a, p)
IsLazy(p, x, r)       == BLt(r, BMul(<<2>>, p)) /\ BMod(r, p) = BMod(x, p)
IsNeg(p, a, r)        == r = BNegMod(a, p)
IsAdd(p, a, b, r)     == r = BAddMod(a, b, p)
IsSub(p, a, b, r)     == r = BSubMod(a, b, p)
IsMul(p, a, b, r)     == r = BMulMod(a, b, p)
IsPow(p, a, b, r)     == r = BModPow(a, b, p)
IsInv(p, a, r)        == BLt(r, p) /\ BMulMod(a, r, p) = <<1>>
IsShoup(p, a, r)      == r = BDiv(BMul(a, WordTop), p)
IsSigned(p, m, n, r)  == r = (IF n = 1 THEN BNegMod(m, p) ELSE BMod(m, p))
=============================================================================
