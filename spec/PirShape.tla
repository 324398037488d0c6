------------------------------ MODULE PirShape ------------------------------
(***************************************************************************)
(* Every shape of a database within bounds: size of the first dimension,   *)
(* size and number of the further ones, and what the records contain. One  *)
(* state per shape; harness/src/pirsuite.rs builds a server of it, asks    *)
(* for the addressed records, and PirTrace.tla decides about the answers.  *)
(* Asks names the records by the digits of their position: all zero, all   *)
(* largest, rising, falling.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Kinds == <<"mixed", "zeros", "full", "sparse">>
CONSTANTS Firsts, MaxDim, MaxK, MaxRows, MaxBits, Contents, Long
VARIABLES first, dim, k, content
vars == <<first, dim, k, content>>
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Rows == first * Power(dim, k)
Bits == first + k * dim
(* powers are bounded before they are computed *)
RECURSIVE Within(_, _, _)
Within(v, e, b) == v <= MaxRows /\ (e = 0 \/ Within(v * b, e - 1, b))
Small == /\ first \in Firsts /\ dim \in 2..MaxDim /\ k \in 0..MaxK
         /\ first > 1 \/ k > 0
         /\ (k = 0 => dim = 2)
         /\ Within(first, k, dim) /\ Bits <= MaxBits
         /\ content \in {Contents[1 + ((first + dim + k) % Len(Contents))]}
(* and a few long ones: many selection bits, sums of many terms *)
LongShapes == {<<200, 3, 1>>, <<3, 150, 1>>, <<70, 4, 2>>, <<33, 17, 1>>, <<2, 20, 2>>, <<18, 2, 6>>}
LongerShapes == LongShapes \cup {<<250, 6, 1>>, <<1, 255, 1>>, <<120, 5, 2>>, <<2, 60, 2>>, <<40, 3, 5>>, <<65, 65, 1>>}
Listed == \E s \in Long : first = s[1] /\ dim = s[2] /\ k = s[3] /\ content = "full"
Init == Small \/ Listed
Next == UNCHANGED vars
Digit(kind, i, size) == CASE kind = 0 -> 0
                          [] kind = 1 -> size - 1
                          [] kind = 2 -> i % size
                          [] kind = 3 -> (size - 1 + size * 64 - i) % size
Position(kind) == [i \in 1..(k + 1) |-> Digit(kind, i, IF i = 1 THEN first ELSE dim)]
S(n) == ToString(n)
RECURSIVE Words(_, _)
Words(p, i) == IF i > Len(p) THEN "" ELSE " " \o S(p[i]) \o Words(p, i + 1)
Ask(kind) == "ask" \o Words(Position(kind), 1)
Valid == \A kind \in 0..3 : LET p == Position(kind) IN p[1] \in 0..(first - 1) /\ \A i \in 2..(k + 1) : p[i] \in 0..(dim - 1)
Printed == PrintT(<<"PROG", "shape " \o S(first) \o " " \o S(dim) \o " " \o S(k) \o " " \o content>>
                  \o [kind \in 1..4 |-> Ask(kind - 1)])
=============================================================================
