------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Statistics of recorded samples. Every threshold is 8 standard           *)
(* deviations of the specified distribution (beyond one in 10^14), plus a  *)
(* few units so that small expectations are safe.                          *)
(* Operators marked (*J*) are overridden in java/Stats.java.               *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets

(* sequences of small integers *)
RECURSIVE SumFrom(_, _)
SumFrom(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + SumFrom(x, i + 1)
SumI(x) == SumFrom(x, 1)                                                 \* (*J*)
RECURSIVE LagFrom(_, _, _)
LagFrom(x, k, i) == IF i + k > Len(x) THEN 0 ELSE x[i] * x[i + k] + LagFrom(x, k, i + 1)
SumLag(x, k) == LagFrom(x, k, 1)     \* sum of products at distance k     (*J*)
SumSq(x) == SumLag(x, 0)
RECURSIVE DotFrom(_, _, _)
DotFrom(x, y, i) == IF i > Len(x) THEN 0 ELSE x[i] * y[i] + DotFrom(x, y, i + 1)
Dot(x, y) == DotFrom(x, y, 1)                                            \* (*J*)
RECURSIVE CountFrom(_, _, _)
CountFrom(x, v, i) == IF i > Len(x) THEN 0 ELSE (IF x[i] = v THEN 1 ELSE 0) + CountFrom(x, v, i + 1)
CountOf(x, v) == CountFrom(x, v, 1)                                      \* (*J*)
(* column c (1..w) of a matrix of width w stored row by row *)
Column(x, w, c) == [i \in 1..(Len(x) \div w) |-> x[(i - 1) * w + c]]     \* (*J*)
AllWithin(x, b) == \A i \in 1..Len(x) : x[i] <= b /\ -x[i] <= b          \* (*J*)
Shifted(x, d) == [i \in 1..Len(x) |-> x[i] + d]                          \* (*J*)

(* BigNats below q: which of k equal parts of the range, and the low part *)
BucketsOf(x, q, k) == [i \in 1..Len(x) |-> BToInt(BDiv(BMul(BOf(k), x[i]), q))]   \* (*J*)
LowOf(x, k) == [i \in 1..Len(x) |-> BToInt(BMod(x[i], BOf(k)))]          \* (*J*)
(* a polynomial of small coefficients modulo q as signed integers; a value *)
(* beyond b in absolute value becomes b + 1                                *)
SmallInts(x, q, b) == [i \in 1..Len(x) |->                               \* (*J*)
    LET a == BAbs(x[i], q) IN
    IF BLt(BOf(b), a) THEN b + 1 ELSE IF BLe(BMul(<<2>>, x[i]), q) THEN BToInt(a) ELSE -BToInt(a)]
RECURSIVE CatFrom(_, _)
CatFrom(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o CatFrom(s, i + 1)
Cat(s) == CatFrom(s, 1)              \* concatenation of all sequences    (*J*)

AllDistinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)         \* (*J*)

AbsI(a) == IF a < 0 THEN -a ELSE a
Sq(a) == BMul(BOf(AbsI(a)), BOf(AbsI(a)))
(* |a - b| at most 8 * sqrt(v) + 4, v a BigNat *)
Within8(a, b, v) == LET d == AbsI(a - b) IN IF d <= 4 THEN TRUE ELSE BLe(Sq(d - 4), BMul(<<64>>, v))

(***************************************************************************)
(* Centered binomial distribution of variance v: difference of two sums of *)
(* 2v fair bits. Variance v, fourth moment 3 v^2 - v/2.                    *)
(***************************************************************************)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN <<1>> ELSE BDiv(BMul(Choose(n, k - 1), BOf(n - k + 1)), BOf(k))
CbdMean(x, v) == Within8(SumI(x), 0, BOf(Len(x) * v))
\* variance of x^2: 2 v^2 - v / 2
CbdVar(x, v) == LET s == SumSq(x) IN Within8(s, Len(x) * v, BMul(BOf(Len(x)), BOf(2 * v * v)))
CbdLag(x, v, k) == Within8(SumLag(x, k), 0, BMul(BOf(Len(x)), BOf(v * v)))
\* expected count n * C(4v, 2v + c) / 2^(4v), rounded
Expect(n, v, c) == BToInt(BDiv(BMul(BOf(n), Choose(4 * v, 2 * v + c)), BPow2(4 * v)))
CbdHist(x, v) == \A c \in (-2 * v)..(2 * v) :
    LET e == Expect(Len(x), v, c) IN Within8(CountOf(x, c), e, BOf(e + 16))
CbdOk(x, v) == AllWithin(x, 2 * v) /\ CbdMean(x, v) /\ CbdVar(x, v) /\ CbdHist(x, v)
(* uncorrelated at distances up to lags *)
CbdFree(x, v, lags) == \A k \in 1..lags : CbdLag(x, v, k)

(* uniform in 0..k-1 *)
UniHist(x, k) == \A c \in 0..(k - 1) :
    LET e == Len(x) \div k IN Within8(CountOf(x, c), e, BOf(e + 16))
(* 2c - (k-1) has mean 0 and variance (k^2-1)/3 *)
UniCentered(x, k) == [i \in 1..Len(x) |-> 2 * x[i] - (k - 1)]            \* (*J*)
UniFree(x, k, lags) == LET c == UniCentered(x, k) IN \A j \in 1..lags :
    Within8(SumLag(c, j), 0, BMul(BOf(Len(x)), BMul(BOf(k * k), BOf((k * k) \div 9 + 1))))
UniIndep(x, y, k) == Within8(Dot(UniCentered(x, k), UniCentered(y, k)), 0,
                             BMul(BOf(Len(x)), BMul(BOf(k * k), BOf((k * k) \div 9 + 1))))
=============================================================================
