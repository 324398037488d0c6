------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size. TLC's integers have 32 bits, the numbers   *)
(* of this system up to several hundred. A number is the little-endian     *)
(* sequence of its digits in base 2^15, without trailing zero digits; zero *)
(* is the empty sequence. Every operator is defined here in plain TLA+;    *)
(* java/BigNat.java overrides the marked ones (*J*) for speed, and         *)
(* BigSelf.tla checks that both agree.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768

IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
            /\ (Len(a) > 0 => a[Len(a)] # 0)

RECURSIVE BNorm(_)
BNorm(a) == IF Len(a) = 0 THEN <<>>
            ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BOf(_)                       \* of a TLC natural number      (*J*)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BOf(n \div Base)

RECURSIVE BToInt(_)                    \* only below 2^31              (*J*)
BToInt(a) == IF Len(a) = 0 THEN 0 ELSE a[1] + Base * BToInt(Tail(a))

BZero == <<>>
BOne  == <<1>>
BTwo  == <<2>>

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x >= y THEN x ELSE y

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF Dig(a, i) < Dig(b, i) THEN -1
                    ELSE IF Dig(a, i) > Dig(b, i) THEN 1
                    ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == CmpFrom(a, b, MaxI(Len(a), Len(b)))                      \* (*J*)
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > MaxI(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == Dig(a, i) + Dig(b, i) + c
         IN  <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
BAdd(a, b) == BNorm(AddFrom(a, b, 1, 0))                               \* (*J*)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == Dig(a, i) - Dig(b, i) - c
         IN  IF s < 0 THEN <<s + Base>> \o SubFrom(a, b, i + 1, 1)
                      ELSE <<s>> \o SubFrom(a, b, i + 1, 0)
BSub(a, b) == BNorm(SubFrom(a, b, 1, 0))    \* requires b <= a         (*J*)

RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * d + c
         IN  <<s % Base>> \o MulDigit(a, d, i + 1, s \div Base)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                    ELSE LET rest == MulFrom(a, b, i + 1)
                         IN  BAdd(BNorm(MulDigit(a, b[i], 1, 0)),
                                  IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
BMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>> ELSE MulFrom(a, b, 1)  \* (*J*)

(* long division: bring down one digit at a time, quotient digit by bisection *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==      \* largest d in lo..hi with b*d <= r, given b*lo <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF BLe(BMul(b, BOf(m)), r) THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m - 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
    IF i = 0 THEN [q |-> BNorm(q), r |-> r]
    ELSE LET r1 == BNorm(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, Base - 1)
         IN  DivFrom(a, b, i - 1, <<d>> \o q, BSub(r1, BMul(b, BOf(d))))
BDiv(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>).q   \* requires b # 0    (*J*)
BMod(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>).r   \* requires b # 0    (*J*)

RECURSIVE BPow(_, _)                   \* n a TLC natural number       (*J*)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))
BPow2(n) == BPow(<<2>>, n)

RECURSIVE BModPow(_, _, _)             \* e a BigNat, m > 1            (*J*)
BModPow(a, e, m) ==
    IF Len(e) = 0 THEN BMod(<<1>>, m)
    ELSE LET h == BModPow(a, BDiv(e, <<2>>), m)
             s == BMod(BMul(h, h), m)
         IN  IF e[1] % 2 = 0 THEN s ELSE BMod(BMul(s, a), m)

RECURSIVE BBits(_)                     \* bit length; 0 for zero       (*J*)
BBits(a) == IF Len(a) = 0 THEN 0 ELSE 1 + BBits(BDiv(a, <<2>>))

BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
BHalf(a) == BDiv(a, <<2>>)

RECURSIVE BGcd(_, _)                   \*                              (*J*)
BGcd(a, b) == IF Len(b) = 0 THEN a ELSE BGcd(b, BMod(a, b))

RECURSIVE BProd(_)
BProd(s) == IF Len(s) = 0 THEN <<1>> ELSE BMul(Head(s), BProd(Tail(s)))
RECURSIVE BSum(_)
BSum(s) == IF Len(s) = 0 THEN <<>> ELSE BAdd(Head(s), BSum(Tail(s)))

(* a natural number below 2^31 or a BigNat, as convenient *)
BX(n) == BOf(n)

(* residues of q: distance to zero on the circle, signed constructors *)
BNegMod(a, q) == IF Len(BMod(a, q)) = 0 THEN <<>> ELSE BSub(q, BMod(a, q))
BAbs(a, q) == LET x == BMod(a, q) IN BMin(x, IF Len(x) = 0 THEN <<>> ELSE BSub(q, x))
BAddMod(a, b, q) == BMod(BAdd(a, b), q)
BSubMod(a, b, q) == BMod(BAdd(a, BNegMod(b, q)), q)
BMulMod(a, b, q) == BMod(BMul(a, b), q)
BOfInt(n, q) == IF n >= 0 THEN BMod(BOf(n), q) ELSE BNegMod(BOf(-n), q)

(* primality. Trial division is the definition; the override uses         *)
(* BigInteger.isProbablePrime(64), see DESIGN.md.                          *)
RECURSIVE NoDivisor(_, _)
NoDivisor(p, d) == IF BLt(p, BMul(d, d)) THEN TRUE
                   ELSE IF Len(BMod(p, d)) = 0 THEN FALSE ELSE NoDivisor(p, BAdd(d, <<1>>))
BIsPrime(p) == BLe(<<2>>, p) /\ NoDivisor(p, <<2>>)                      \* (*J*)
=============================================================================
