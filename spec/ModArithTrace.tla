--------------------------- MODULE ModArithTrace ---------------------------
(***************************************************************************)
(* Recorded calls of src/modulus.rs. Each event is a batch of calls of one *)
(* operation with one modulus.                                             *)
(***************************************************************************)
EXTENDS ModArith, TraceBase

N(e) == Len(e.a)
Shape1(e) == Returned(e) /\ Len(e.r) = N(e) /\ ModulusDomain(e.p)
Shape2(e) == Shape1(e) /\ Len(e.b) = N(e)
Canon(s, p) == \A i \in 1..Len(s) : BLt(s[i], p)      \* operands in range

Const  == IsEvent("const") /\ Ev.modulus = Ev.p /\ Ev.bits = BOf(BBits(Ev.p))
Reduce == IsEvent("reduce") /\ Shape1(Ev) /\ \A i \in 1..N(Ev) : IsReduce(Ev.p, Ev.a[i], Ev.r[i])
LazyReduce == IsEvent("lazy_reduce") /\ Shape1(Ev) /\ \A i \in 1..N(Ev) : IsLazy(Ev.p, Ev.a[i], Ev.r[i])
Neg == IsEvent("neg") /\ Shape1(Ev) /\ Canon(Ev.a, Ev.p) /\ \A i \in 1..N(Ev) : IsNeg(Ev.p, Ev.a[i], Ev.r[i])
Shoup == IsEvent("shoup") /\ Shape1(Ev) /\ Canon(Ev.a, Ev.p) /\ \A i \in 1..N(Ev) : IsShoup(Ev.p, Ev.a[i], Ev.r[i])
Add == IsEvent("add") /\ Shape2(Ev) /\ \A i \in 1..N(Ev) : IsAdd(Ev.p, Ev.a[i], Ev.b[i], Ev.r[i])
Sub == IsEvent("sub") /\ Shape2(Ev) /\ \A i \in 1..N(Ev) : IsSub(Ev.p, Ev.a[i], Ev.b[i], Ev.r[i])
Mul == IsEvent("mul") /\ Shape2(Ev) /\ \A i \in 1..N(Ev) : IsMul(Ev.p, Ev.a[i], Ev.b[i], Ev.r[i])
LazyMul == IsEvent("lazy_mul") /\ Shape2(Ev)
           /\ \A i \in 1..N(Ev) : IsLazy(Ev.p, BMul(Ev.a[i], Ev.b[i]), Ev.r[i])
Pow == IsEvent("pow") /\ Shape2(Ev) /\ \A i \in 1..N(Ev) : IsPow(Ev.p, Ev.a[i], Ev.b[i], Ev.r[i])
Inv == IsEvent("inv") /\ Shape1(Ev) /\ \A i \in 1..N(Ev) : IsInv(Ev.p, Ev.a[i], Ev.r[i])
Signed == IsEvent("reduce_signed") /\ Shape1(Ev)
          /\ \A i \in 1..N(Ev) : IsSigned(Ev.p, Ev.a[i], Ev.neg[i], Ev.r[i])
Random == IsEvent("random") /\ Returned(Ev) /\ Len(Ev.r) = Ev.size /\ Canon(Ev.r, Ev.p)

Init == l = 1
Next == \/ Const \/ Reduce \/ LazyReduce \/ Neg \/ Shoup \/ Add \/ Sub \/ Mul \/ LazyMul
        \/ Pow \/ Inv \/ Signed \/ Random
        \/ Finished /\ UNCHANGED l
=============================================================================
