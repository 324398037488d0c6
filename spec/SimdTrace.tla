----------------------------- MODULE SimdTrace -----------------------------
(***************************************************************************)
(* Recorded encodings and decodings (Plaintext of src/bfv.rs). The slots   *)
(* of X are the points of the encoding: N distinct roots of X^N + 1, in    *)
(* two rows, each the cubes of its predecessor, the second row inverse to  *)
(* the first.                                                              *)
(***************************************************************************)
EXTENDS BigPoly, TraceBase, FiniteSets
VARIABLES n, t, zs
svars == <<n, t, zs>>
Ok(name) == IsEvent(name) /\ Returned(Ev)
Start == /\ Ok("params") /\ n' = Ev.n /\ t' = Ev.t /\ zs' = Ev.zs
         /\ BIsPrime(Ev.t) /\ IsPoly(Ev.zs, Ev.n, Ev.t)
         /\ \A i \in 1..Ev.n : BModPow(Ev.zs[i], BOf(Ev.n), Ev.t) = BSub(Ev.t, <<1>>)
         /\ Cardinality({Ev.zs[i] : i \in 1..Ev.n}) = Ev.n
         /\ LET h == Ev.n \div 2 IN
            /\ \A i \in 1..Ev.n : i % h # 0 => Ev.zs[i + 1] = BModPow(Ev.zs[i], <<3>>, Ev.t)
            /\ \A i \in 1..h : BMulMod(Ev.zs[i], Ev.zs[i + h], Ev.t) = <<1>>
(* slots v were encoded as the polynomial m and decoded to back *)
Simd == /\ Ok("simd") /\ UNCHANGED svars
        /\ IsPoly(Ev.m, n, t) /\ PEvalAll(Ev.m, zs, t) = Ev.v /\ Ev.back = Ev.v
(* coefficients v were encoded as m, decoded to back *)
Coeff == /\ Ok("coeff") /\ UNCHANGED svars /\ Len(Ev.v) <= n
         /\ Ev.m = [i \in 1..n |-> IF i <= Len(Ev.v) THEN Ev.v[i] ELSE <<>>]
         /\ Ev.back = Ev.m
(* encodings of x and y added or multiplied as polynomials, then decoded   *)
Hom == /\ Ok("hom") /\ UNCHANGED svars
       /\ Ev.m = (IF Ev.mul THEN PMul(Ev.mx, Ev.my, t) ELSE PAdd(Ev.mx, Ev.my, t))
       /\ Ev.slots = (IF Ev.mul THEN PPointMul(Ev.x, Ev.y, t) ELSE PAdd(Ev.x, Ev.y, t))
Init == l = 1 /\ n = 0 /\ t = <<2>> /\ zs = <<>>
Next == Start \/ Simd \/ Coeff \/ Hom \/ (Finished /\ UNCHANGED <<l, svars>>)
View == l
Alias == [l |-> l]
=============================================================================
