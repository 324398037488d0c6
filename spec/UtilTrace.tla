----------------------------- MODULE UtilTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the helpers in src/utils.rs: 256-bit integers, digit  *)
(* decompositions and number theory. Definitions are mathematical; the     *)
(* carry chains themselves are modelled in WideWord.tla.                   *)
(***************************************************************************)
EXTENDS BigPoly, TraceBase

Top == BPow2(256)
Top128 == BPow2(128)

All(e, P(_)) == Returned(e) /\ Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : P(i)

Add == IsEvent("add") /\ All(Ev, LAMBDA i : Ev.r[i] = BMod(BAdd(Ev.a[i], Ev.b[i]), Top))
Sub == IsEvent("sub") /\ All(Ev, LAMBDA i : Ev.r[i] = BSubMod(Ev.a[i], Ev.b[i], Top))
Shr == IsEvent("shr") /\ All(Ev, LAMBDA i : Ev.r[i] = BDiv(Ev.a[i], BPow2(Ev.k)))
Conv == /\ IsEvent("conv") /\ Returned(Ev)
        /\ BAdd(Ev.not, Ev.a) = BSub(Top, <<1>>)
        /\ BLt(Ev.lo, Top128) /\ BAdd(Ev.lo, BMul(Ev.hi, Top128)) = Ev.a
        /\ Ev.same = Ev.a /\ Ev.eq = TRUE
        /\ Ev.low = BMod(Ev.a, Top128)
        /\ Ev.msb = BDiv(Ev.a, BPow2(255))
        /\ Ev.zero = <<>>

RECURSIVE Recompose(_, _, _)
Recompose(d, base, i) == IF i > Len(d) THEN <<>> ELSE BAdd(d[i], BMul(base, Recompose(d, base, i + 1)))
Bits == /\ IsEvent("bits") /\ Returned(Ev)
        /\ Len(Ev.r) = Ev.size /\ \A i \in 1..Len(Ev.r) : Ev.r[i] \in {0, 1}
        /\ Recompose([i \in 1..Len(Ev.r) |-> BOf(Ev.r[i])], <<2>>, 1) = Ev.m
Digits == /\ IsEvent("digits") /\ Returned(Ev)
          /\ Len(Ev.r) = (Ev.size + Ev.base - 1) \div Ev.base
          /\ \A i \in 1..Len(Ev.r) : BLt(Ev.r[i], BPow2(Ev.base))
          /\ Recompose(Ev.r, BPow2(Ev.base), 1) = Ev.m
Log2 == IsEvent("ilog2") /\ All(Ev, LAMBDA i : Ev.r[i] >= 0 /\ BLe(BPow2(Ev.r[i]), Ev.a[i])
                                               /\ BLt(Ev.a[i], BPow2(Ev.r[i] + 1)))
DivCeil == IsEvent("div_ceil")
           /\ All(Ev, LAMBDA i : LET p == BMul(Ev.r[i], Ev.b[i])
                                 IN  BLe(Ev.a[i], p) /\ BLt(p, BAdd(Ev.a[i], Ev.b[i])))
Inverse == /\ IsEvent("inverse") /\ Returned(Ev)
           /\ Len(Ev.r) = Len(Ev.v) /\ Len(Ev.some) = Len(Ev.v)
           /\ \A i \in 1..Len(Ev.v) :
                 IF BGcd(Ev.v[i], Ev.q[i]) = <<1>>
                 THEN Ev.some[i] = 1 /\ BLt(Ev.r[i], Ev.q[i]) /\ BMulMod(Ev.v[i], Ev.r[i], Ev.q[i]) = <<1>>
                 ELSE Ev.some[i] = 0
Prime == IsEvent("prime") /\ All(Ev, LAMBDA i : (Ev.r[i] = 1) = BIsPrime(Ev.a[i]))

Init == l = 1
Next == \/ Add \/ Sub \/ Shr \/ Conv \/ Bits \/ Digits \/ Log2 \/ DivCeil \/ Inverse \/ Prime
        \/ Finished /\ UNCHANGED l
=============================================================================
