------------------------------ MODULE BigSelf ------------------------------
(***************************************************************************)
(* Self-check of the arithmetic modules. Run twice, with and without the   *)
(* Java overrides on the class path: both runs must satisfy the laws and   *)
(* print the same results.                                                 *)
(***************************************************************************)
EXTENDS Rns, Stats, TLC

RECURSIVE Rnd(_, _)          \* n-th number of a small pseudo-random stream
Rnd(seed, n) == IF n = 0 THEN seed % 32768 ELSE (Rnd(seed, n - 1) * 1103 + 12345 + n) % 32768
Num(seed, len) == BNorm([i \in 1..len |-> IF (seed + i) % 7 = 0 THEN 32767
                                          ELSE IF (seed + i) % 11 = 0 THEN 0 ELSE Rnd(seed, i)])
Poly(seed, n, len, q) == [i \in 1..n |-> BMod(Num(seed * 31 + i, len), q)]

Cases == 1..12
A(i) == Num(i, 1 + (i % 4))
B(i) == BAdd(Num(i * 5 + 3, 1 + (i % 3)), <<1>>)
Q(i) == BAdd(Num(i * 3 + 1, 1 + (i % 3)), <<17>>)

Laws(i) ==
    LET a == A(i)  b == B(i)  q == Q(i) IN
    /\ IsBig(BAdd(a, b)) /\ IsBig(BMul(a, b))
    /\ BSub(BAdd(a, b), b) = a
    /\ a = BAdd(BMul(BDiv(a, b), b), BMod(a, b)) /\ BLt(BMod(a, b), b)
    /\ BMul(a, BAdd(b, q)) = BAdd(BMul(a, b), BMul(a, q))
    /\ BLe(BPow2(BBits(b) - 1), b) /\ BLt(b, BPow2(BBits(b)))
    /\ BModPow(a, <<5>>, q) = BMod(BPow(a, 5), q)
    /\ BMod(a, BGcd(a, b)) = <<>> /\ BMod(b, BGcd(a, b)) = <<>>
PLaws(i) ==
    LET q == Q(i)  n == 4
        f == Poly(i, n, 2, q)  g == Poly(i + 50, n, 2, q)  h == Poly(i + 90, n, 2, q) IN
    /\ PMul(f, PAdd(g, h, q), q) = PAdd(PMul(f, g, q), PMul(f, h, q), q)
    /\ PMul(f, g, q) = PMul(g, f, q)
    /\ PSub(PAdd(f, g, q), g, q) = f
    /\ PSubst(PMul(f, g, q), 3, q) = PMul(PSubst(f, 3, q), PSubst(g, 3, q), q)
    /\ PMul(f, PConst(<<3>>, n), q) = PScale(f, <<3>>, q)
    /\ IsPoly(f, n, q) /\ ~IsPoly(f, n + 1, q)
Out(i) ==
    LET a == A(i)  b == B(i)  q == Q(i)
        f == Poly(i, 4, 3, q)  g == Poly(i + 50, 4, 3, q) IN
    <<i, BOf(i * 100003), BToInt(BOf(i * 100003)), BCmp(a, b), BAdd(a, b), BMul(a, b), BDiv(a, b), BMod(a, b),
      BPow(b, i % 5), BModPow(a, <<i, 1>>, q), BBits(a), BGcd(a, b), BIsPrime(BOf(i * 6 + 1)),
      PAdd(f, g, q), PSub(f, g, q), PScale(f, a, q), PRed(f, <<97>>), PMul(f, g, q), PSubst(f, 2 * (i % 4) + 1, q),
      PMul(Poly(i + 7, 8, 4, q), Poly(i + 8, 8, 1, q), q), PMul(PZero(4), g, q), PEvalAll(f, g, BAdd(BMul(q, <<2>>), <<1>>)),
      PEvalAll(Poly(i + 9, 8, 5, BPow2(70)), Poly(i + 2, 8, 5, BPow2(70)), BSub(BPow2(62), BOf(2 * i + 1))),
      PDot(f, g, q), PSelect(<<f, g, f>>, <<1, i % 2, 1 - (i % 2)>>, 4, q), PNorm(f, q), PEval(f, a, q), PEvalAll(f, <<a, b>>, q), PPointMul(f, g, q), PInt(<<i, -i, 0, 5>>, q),
      IsPoly(f, 4, q), IsPoly(PAdd(f, g, BMul(q, q)), 4, q), IsPoly(<<<<1, 0>>>>, 1, q)>>

(* residue systems *)
MsOf(i) == CASE i % 4 = 0 -> <<<<7>>, <<13>>>>
             [] i % 4 = 1 -> <<<<2>>, <<3>>, <<97>>>>
             [] i % 4 = 2 -> <<<<32749>>>>
             [] i % 4 = 3 -> <<<<1, 2>>, <<5>>, <<17>>>>       \* 65537
RowsOf(i, ms, n) == [k \in 1..Len(ms) |-> Poly(i * 7 + k, n, 2, ms[k])]
OutR(i) ==
    LET ms == MsOf(i)  to == MsOf(i + 1)  rows == RowsOf(i, ms, 3)
        num == B(i)  den == BAdd(B(i + 3), <<1>>)
        good(x) == [k \in 1..Len(to) |-> SignedMod(CHOOSE s \in ScaleSet(x, Modulus(ms), num, den) : TRUE, to[k])]
        bad(x) == [k \in 1..Len(to) |-> BMod(BAdd(good(x)[k], <<1>>), to[k])]
        outc == [c \in 1..3 |-> good(PLift(rows, ms)[c])]
        outr == [k \in 1..Len(to) |-> [c \in 1..3 |-> outc[c][k]]]
        qx == BAdd(BPow2(45), <<i>>)  outx == [k \in 1..4 |-> BMod(BMul(BPow2(15 * k + i), A(k)), qx)]
        x1 == Lift([k \in 1..Len(ms) |-> rows[k][1]], ms)
    IN  <<x1, PLift(rows, ms), IsRows(rows, 3, ms), IsRows(rows, 2, ms), IsRows(Tail(rows), 3, ms),
          IsRows([rows EXCEPT ![1][1] = ms[1]], 3, ms),
          IsScaled(x1, Modulus(ms), num, den, good(x1), to), IsScaled(x1, Modulus(ms), num, den, bad(x1), to),
          IsScaledRows(rows, ms, num, den, outr, to),
          IsScaledRows(rows, ms, num, den, [outr EXCEPT ![1][2] = BMod(BAdd(@, <<1>>), to[1])], to),
          \* a tie of the rounding, and of the centering
          IsScaled(<<1>>, <<97>>, <<1>>, <<2>>, <<<<>>>>, <<<<7>>>>), IsScaled(<<1>>, <<97>>, <<1>>, <<2>>, <<<<1>>>>, <<<<7>>>>),
          IsScaled(<<48>>, <<97>>, <<1>>, <<1>>, <<<<6>>>>, <<<<7>>>>), IsScaled(<<49>>, <<97>>, <<1>>, <<1>>, <<<<1>>>>, <<<<7>>>>),
          \* coefficient by coefficient
          PIsScaled(outx, qx, num, den, PRoundSigned(outx, qx, num, den, <<97>>), <<97>>),
          PIsScaled(outx, qx, num, den, [PRoundSigned(outx, qx, num, den, <<97>>) EXCEPT ![2] = BMod(BAdd(@, <<2>>), <<97>>)], <<97>>),
          PIsScaled(outx, qx, num, den, <<<<>>>>, <<97>>),
          PRoundSigned(outx, qx, num, den, BPow2(50)), PRoundMod(outx, num, den, BPow2(50)), PCentered(outx, qx, BPow2(99)),
          PNearHalf(outx, qx), PNearHalf(<<BHalf(qx)>>, qx), PNearHalf(<<<<>>, BHalf(qx)>>, BAdd(qx, qx)), L1(outx, qx)>>

ASSUME \A i \in Cases : Assert(Laws(i), <<"law", i>>) /\ Assert(PLaws(i), <<"plaw", i>>)
(* statistics *)
XsOf(i) == [k \in 1..12 |-> ((i * 31 + k * k * 7) % 23) - 11]
OutS(i) ==
    LET x == XsOf(i)  y == XsOf(i + 5)  q == Q(i)  f == Poly(i, 6, 3, q)
        g == PInt(x, BOf(1009)) IN
    <<SumI(x), SumLag(x, 0), SumLag(x, 3), Dot(x, y), CountOf(x, x[2]), Column(x, 4, 1 + (i % 4)), AllWithin(x, 11), AllWithin(x, 10),
      AllWithin(x, 5), Shifted(x, i), UniCentered(x, 8), BucketsOf(f, q, 16), LowOf(f, 10), SmallInts(g, BOf(1009), 11),
      SmallInts(g, BOf(1009), 7), Cat(<<x, y, <<>>, x>>), AllDistinct(<<f, f>>), AllDistinct(f), AllDistinct(<<>>), AllDistinct(<<<<i>>, <<>>, <<1, i>>, <<i, 1>>>>)>>
ASSUME \A i \in Cases : PrintT(<<"OUT", Out(i), OutR(i), OutS(i)>>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
