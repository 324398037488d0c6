-------------------------------- MODULE Simd --------------------------------
(***************************************************************************)
(* Design of SIMD encoding (Plaintext::new and decode of src/bfv.rs): slot *)
(* i of a message is its value at Z^(3^i) in the first row and at          *)
(* Z^(-3^i) in the second. Every polynomial over Z_T is reachable; for     *)
(* each one, encoding inverts decoding, adding and multiplying act slot by *)
(* slot (checked on the generators X and the constants, which give every   *)
(* polynomial), X -> X^3 rotates the rows and X -> X^(2N-1) swaps them.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, T, Top          \* coefficients up to Top; Top = T - 1 for all
VARIABLE a
Half == N \div 2
RECURSIVE Pow(_, _)
Pow(z, k) == IF k = 0 THEN 1 ELSE (z * Pow(z, k - 1)) % T
Z == CHOOSE z \in 1..(T - 1) : Pow(z, N) = T - 1
RECURSIVE Pow3(_)
Pow3(i) == IF i = 0 THEN 1 ELSE (3 * Pow3(i - 1)) % (2 * N)
Exponent(i) == IF i <= Half THEN Pow3(i - 1) ELSE (2 * N - Pow3(i - 1 - Half)) % (2 * N)
Point == [i \in 1..N |-> Pow(Z, Exponent(i))]
RECURSIVE Ev(_, _, _)
Ev(f, z, i) == IF i > N THEN 0 ELSE (f[i] + z * Ev(f, z, i + 1)) % T
Decode(f) == [i \in 1..N |-> Ev(f, Point[i], 1)]
Inv(x) == CHOOSE y \in 1..(T - 1) : (x * y) % T = 1
InvN == Inv(N)
InvPoint == [i \in 1..N |-> Inv(Point[i])]
(* interpolation: coefficient j is the mean of v_i z_i^-j *)
RECURSIVE Sum(_, _, _)
Sum(v, j, i) == IF i > N THEN 0 ELSE (v[i] * Pow(InvPoint[i], j) + Sum(v, j, i + 1)) % T
Encode(v) == [j \in 1..N |-> (InvN * Sum(v, j - 1, 1)) % T]
TimesX(f) == [i \in 1..N |-> IF i = 1 THEN (T - f[N]) % T ELSE f[i - 1]]
Subst(f, k) == [j \in 1..N |-> LET i == CHOOSE i \in 0..(N - 1) : ((i * k) % (2 * N)) % N = j - 1
                               IN IF (i * k) % (2 * N) >= N THEN (T - f[i + 1]) % T ELSE f[i + 1]]
Left(v) == [i \in 1..N |-> IF i <= Half THEN v[1 + (i % Half)] ELSE v[Half + 1 + ((i - Half) % Half)]]
Swap(v) == [i \in 1..N |-> IF i <= Half THEN v[i + Half] ELSE v[i - Half]]

Init == a = [i \in 1..N |-> 0]
Next == \E k \in 1..N : a' = [a EXCEPT ![k] = (@ + 1) % (Top + 1)]
ASSUME Cardinality({Point[i] : i \in 1..N}) = N
RoundTrip == Encode(Decode(a)) = a /\ Decode(Encode(a)) = a     \* both directions, a as slots too
Hom == LET d == Decode(a) IN
    /\ Decode([a EXCEPT ![1] = (@ + 1) % T]) = [i \in 1..N |-> (d[i] + 1) % T]
    /\ Decode(TimesX(a)) = [i \in 1..N |-> (d[i] * Point[i]) % T]
    /\ Decode([i \in 1..N |-> (2 * a[i]) % T]) = [i \in 1..N |-> (2 * d[i]) % T]
Rotation == LET d == Decode(a) IN Decode(Subst(a, 3)) = Left(d) /\ Decode(Subst(a, 2 * N - 1)) = Swap(d)
=============================================================================
