------------------------------ MODULE BigPoly ------------------------------
(***************************************************************************)
(* The ring Z_q[X]/(X^N + 1). A polynomial is the sequence of its N        *)
(* coefficients, BigNats below q; position i holds the coefficient of      *)
(* X^(i-1). Operators marked (*J*) are overridden in java/BigPoly.java.    *)
(***************************************************************************)
EXTENDS BigNat

IsPoly(a, n, q) == Len(a) = n /\ \A i \in 1..n : IsBig(a[i]) /\ BLt(a[i], q)   \* (*J*)

PZero(n) == [i \in 1..n |-> <<>>]
PConst(c, n) == [i \in 1..n |-> IF i = 1 THEN c ELSE <<>>]
PMono(k, n) == [i \in 1..n |-> IF i = k + 1 THEN <<1>> ELSE <<>>]

PAdd(a, b, q) == [i \in 1..Len(a) |-> BAddMod(a[i], b[i], q)]            \* (*J*)
PSub(a, b, q) == [i \in 1..Len(a) |-> BSubMod(a[i], b[i], q)]            \* (*J*)
PNeg(a, q)    == [i \in 1..Len(a) |-> BNegMod(a[i], q)]
PScale(a, c, q) == [i \in 1..Len(a) |-> BMulMod(a[i], c, q)]             \* (*J*)
PRed(a, q)    == [i \in 1..Len(a) |-> BMod(a[i], q)]                     \* (*J*)

(* X^n = -1: the product's coefficient k collects a_i b_j with i+j = k,    *)
(* and those with i+j = k+n negated                                        *)
RECURSIVE MulCoef(_, _, _, _, _, _)
MulCoef(a, b, q, n, k, i) ==
    IF i = n THEN <<>>
    ELSE LET j == IF i <= k THEN k - i ELSE k - i + n
             t == BMulMod(a[i + 1], b[j + 1], q)
             s == IF i <= k THEN t ELSE BNegMod(t, q)
         IN  BAddMod(s, MulCoef(a, b, q, n, k, i + 1), q)
PMul(a, b, q) == [k \in 1..Len(a) |-> MulCoef(a, b, q, Len(a), k - 1, 0)] \* (*J*)

(* a(X^k), k odd *)
PSubst(a, k, q) ==                                                       \* (*J*)
    LET n == Len(a)
        \* source index i (0-based) goes to position (i*k mod 2n)
        Src(j) == CHOOSE i \in 0..(n - 1) : ((i * k) % (2 * n)) % n = j
    IN  [j \in 1..n |-> LET i == Src(j - 1) IN
            IF (i * k) % (2 * n) >= n THEN BNegMod(a[i + 1], q) ELSE BMod(a[i + 1], q)]

(* largest distance of a coefficient from zero modulo q *)
RECURSIVE NormFrom(_, _, _)
NormFrom(a, q, i) == IF i > Len(a) THEN <<>> ELSE BMax(BAbs(a[i], q), NormFrom(a, q, i + 1))
PNorm(a, q) == NormFrom(a, q, 1)                                         \* (*J*)

(* value at z modulo q (Horner) *)
RECURSIVE EvalFrom(_, _, _, _)
EvalFrom(a, z, q, i) == IF i > Len(a) THEN <<>>
                        ELSE BAddMod(a[i], BMulMod(z, EvalFrom(a, z, q, i + 1), q), q)
PEval(a, z, q) == EvalFrom(a, z, q, 1)                                   \* (*J*)
PEvalAll(a, zs, q) == [i \in 1..Len(zs) |-> PEval(a, zs[i], q)]          \* (*J*)
PPointMul(a, b, q) == [i \in 1..Len(a) |-> BMulMod(a[i], b[i], q)]       \* (*J*)

(* scalar product of vectors; sum of the vectors (of length w) selected by *)
(* a sequence of zeros and ones                                            *)
RECURSIVE DotMod(_, _, _, _)
DotMod(x, y, q, i) == IF i > Len(x) THEN <<>> ELSE BAddMod(BMulMod(x[i], y[i], q), DotMod(x, y, q, i + 1), q)
PDot(x, y, q) == DotMod(x, y, q, 1)                                      \* (*J*)
RECURSIVE SelFrom(_, _, _, _, _)
SelFrom(f, sel, w, q, i) == IF i > Len(f) THEN PZero(w)
                            ELSE IF sel[i] = 1 THEN PAdd(f[i], SelFrom(f, sel, w, q, i + 1), q)
                            ELSE SelFrom(f, sel, w, q, i + 1)
PSelect(f, sel, w, q) == SelFrom(f, sel, w, q, 1)                        \* (*J*)

(* from small signed integers *)
PInt(a, q) == [i \in 1..Len(a) |-> BOfInt(a[i], q)]                      \* (*J*)
=============================================================================
