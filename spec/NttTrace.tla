------------------------------ MODULE NttTrace ------------------------------
(***************************************************************************)
(* Recorded transforms of src/ntt.rs. The first event of an operator gives *)
(* the transform of X, that is the evaluation points in the order the code *)
(* uses; they must be the n roots of X^n + 1. Every further transform must *)
(* then be evaluation at these points, or its inverse.                     *)
(***************************************************************************)
EXTENDS BigPoly, TraceBase, FiniteSets

VARIABLES p, n, zs      \* the operator in use: modulus, size, points

RootsOfMinusOne(s) == \A i \in 1..Len(s) : BModPow(s[i], BOf(Len(s)), p') = BSub(p', <<1>>)
Operator == /\ IsEvent("operator") /\ Returned(Ev)
            /\ p' = Ev.p /\ n' = Ev.n /\ zs' = Ev.roots
            /\ BIsPrime(Ev.p) /\ BMod(Ev.p, BOf(2 * Ev.n)) = <<1>>
            /\ IsPoly(Ev.roots, Ev.n, Ev.p)
            /\ RootsOfMinusOne(Ev.roots)
            /\ Cardinality({Ev.roots[i] : i \in 1..Ev.n}) = Ev.n

IsTransform(f, v) == PEvalAll(f, zs, p) = v
Forward == /\ IsEvent("forward") /\ Returned(Ev)
           /\ IsPoly(Ev.a, n, p) /\ IsPoly(Ev.r, n, p)
           /\ IsTransform(Ev.a, Ev.r)
           /\ UNCHANGED <<p, n, zs>>
Backward == /\ IsEvent("backward") /\ Returned(Ev)
            /\ IsPoly(Ev.a, n, p) /\ IsPoly(Ev.r, n, p)
            /\ IsTransform(Ev.r, Ev.a)
            /\ UNCHANGED <<p, n, zs>>
Product == /\ IsEvent("product") /\ Returned(Ev)
           /\ IsPoly(Ev.r, n, p) /\ Ev.r = PMul(Ev.a, Ev.b, p)
           /\ UNCHANGED <<p, n, zs>>

Init == l = 1 /\ p = <<2>> /\ n = 0 /\ zs = <<>>
Next == \/ Operator \/ Forward \/ Backward \/ Product
        \/ Finished /\ UNCHANGED <<l, p, n, zs>>
View == l
Alias == [l |-> l]
=============================================================================
