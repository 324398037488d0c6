----------------------------- MODULE WordArith -----------------------------
(***************************************************************************)
(* The word-level algorithms of src/modulus.rs with words of W bits        *)
(* instead of 64: Barrett reduction of one- and two-word operands with the *)
(* precomputed reciprocal floor(2^2W / p), the branch-free conditional     *)
(* subtraction, Shoup multiplication with the precomputed quotient         *)
(* floor(b 2^W / p), signed reduction and square-and-multiply.             *)
(* One action is one step of the computation, so that the ranges of the    *)
(* intermediate values are checked too. TLC explores every modulus below   *)
(* 2^(W-2) and every operand.                                              *)
(***************************************************************************)
EXTENDS Integers, Bitwise

CONSTANT W
ASSUME W \in 4..10

B    == 2^W                       \* words are 0..B-1
Moduli == 2..(2^(W - 2) - 1)

VARIABLES pc, op, p, a, b, q, x
vars == <<pc, op, p, a, b, q, x>>

(* precomputed constants of a modulus *)
R(m)   == (B * B) \div m
Hi(m)  == R(m) \div B
Lo(m)  == R(m) % B
Quot(m, v) == (v * B) \div m      \* Shoup quotient

Init == /\ pc = "start" /\ op = "none"
        /\ p \in Moduli /\ a = 0 /\ b = 0 /\ q = 0 /\ x = 0

(* ---- choice of an operation and its operands ---- *)
Call == /\ pc = "start"
        /\ \/ op' = "reduce"    /\ a' \in 0..(B - 1) /\ b' = 0
           \/ op' = "wide"      /\ a' \in 0..(B * B - 1) /\ b' = 0
           \/ op' = "shoup"     /\ a' \in 0..(B - 1) /\ b' \in 0..(p - 1)
           \/ op' = "add"       /\ a' \in 0..(p - 1) /\ b' \in 0..(p - 1)
           \/ op' = "sub"       /\ a' \in 0..(p - 1) /\ b' \in 0..(p - 1)
           \/ op' = "signed"    /\ a' \in (-(B \div 2))..(B \div 2 - 1) /\ b' = 0
           \/ op' = "pow"       /\ a' \in 0..(p - 1) /\ b' \in 0..(p - 1)
        /\ pc' = "called" /\ UNCHANGED <<p, q, x>>

(* ---- Barrett, one word ---- *)
EstimateWord ==
    /\ pc = "called" /\ op = "reduce"
    /\ q' = (a * Hi(p) + (a * Lo(p)) \div B) \div B
    /\ pc' = "estimated" /\ UNCHANGED <<op, p, a, b, x>>
(* ---- Barrett, two words ---- *)
WideQuot(v) == LET al == v % B  ah == v \div B
               IN  (al * Hi(p) + ah * Lo(p) + (al * Lo(p)) \div B) \div B + ah * Hi(p)
EstimateWide ==
    /\ pc = "called" /\ op = "wide"
    /\ q' = WideQuot(a)
    /\ pc' = "estimated" /\ UNCHANGED <<op, p, a, b, x>>
EstimateSigned ==
    /\ pc = "called" /\ op = "signed"
    /\ q' = WideQuot(p * B + a)
    /\ pc' = "estimated" /\ UNCHANGED <<op, p, a, b, x>>
(* ---- Shoup ---- *)
EstimateShoup ==
    /\ pc = "called" /\ op = "shoup"
    /\ q' = (a * Quot(p, b)) \div B
    /\ pc' = "estimated" /\ UNCHANGED <<op, p, a, b, x>>
Subject == CASE op = "reduce" -> a [] op = "wide" -> a [] op = "signed" -> p * B + a
             [] op = "shoup" -> a * b
Subtract == /\ pc = "estimated"
            /\ x' = Subject - q * p
            /\ pc' = "lazy" /\ UNCHANGED <<op, p, a, b, q>>
(* ---- sums ---- *)
Sum  == /\ pc = "called" /\ op = "add" /\ x' = a + b
        /\ pc' = "lazy" /\ UNCHANGED <<op, p, a, b, q>>
Diff == /\ pc = "called" /\ op = "sub" /\ x' = a + (p - b)
        /\ pc' = "lazy" /\ UNCHANGED <<op, p, a, b, q>>
(* ---- branch-free conditional subtraction, bit for bit ---- *)
Sel(v, m) == LET y   == (v - m + B) % B
                 xp  == v ^^ m
                 yp  == y ^^ m
                 xxy == (v ^^ (xp ^^ yp)) \div (B \div 2)   \* sign bit
                 c   == (xxy - 1 + B) % B
             IN  (c & y) | ((B - 1 - c) & v)
Correct == /\ pc = "lazy" /\ x' = Sel(x, p)
           /\ pc' = "done" /\ UNCHANGED <<op, p, a, b, q>>
(* ---- square and multiply: q counts the exponent bits left, x the value ---- *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
PowStart == /\ pc = "called" /\ op = "pow"
            /\ IF b <= 1 THEN x' = (IF b = 0 THEN 1 ELSE a) /\ pc' = "done" /\ q' = 0
               ELSE x' = a /\ pc' = "powering" /\ q' = BitLen(b) - 1
            /\ UNCHANGED <<op, p, a, b>>
PowStep  == /\ pc = "powering" /\ q > 0
            /\ LET s == (x * x) % p
               IN  x' = IF (b \div 2^(q - 1)) % 2 = 1 THEN (s * a) % p ELSE s
            /\ q' = q - 1
            /\ pc' = IF q = 1 THEN "done" ELSE "powering"
            /\ UNCHANGED <<op, p, a, b>>

Next == \/ Call \/ EstimateWord \/ EstimateWide \/ EstimateSigned \/ EstimateShoup
        \/ Subtract \/ Sum \/ Diff \/ Correct \/ PowStart \/ PowStep
        \/ pc = "done" /\ UNCHANGED vars

(* ---- properties ---- *)
RECURSIVE Pw(_, _, _)
Pw(m, v, n) == IF n = 0 THEN 1 % m ELSE (v * Pw(m, v, n - 1)) % m
Result == CASE op = "reduce" -> a % p
            [] op = "wide"   -> a % p
            [] op = "signed" -> a % p
            [] op = "shoup"  -> (a * b) % p
            [] op = "add"    -> (a + b) % p
            [] op = "sub"    -> (a - b) % p
            [] op = "pow"    -> Pw(p, a, b)
            [] OTHER -> 0
LazyRange == pc = "lazy" => x \in 0..(2 * p - 1) /\ x % p = Result
NoUnderflow == pc = "estimated" => q * p <= Subject
Exact == pc = "done" => x = Result
PowInvariant == pc = "powering" => x = Pw(p, a, b \div 2^q)
=============================================================================
