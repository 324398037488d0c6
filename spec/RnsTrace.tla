------------------------------ MODULE RnsTrace ------------------------------
(***************************************************************************)
(* Recorded calls of src/rns.rs (contexts, projection, lifting, scaling)   *)
(* and of the polynomial scaler and modulus switching of src/rq.rs.        *)
(***************************************************************************)
EXTENDS Rns, TraceBase

(* C14: constants of a basis *)
Context ==
    /\ IsEvent("context") /\ Returned(Ev) /\ IsBasis(Ev.ms)
    /\ LET ms == Ev.ms  k == Len(Ev.ms)  q == Modulus(Ev.ms) IN
       /\ Ev.product = q /\ Ev.modulus = q
       /\ Len(Ev.star) = k /\ Len(Ev.tilde) = k /\ Len(Ev.garner) = k
       /\ \A i \in 1..k :
            /\ Ev.star[i] = BDiv(q, ms[i])
            /\ BLt(Ev.tilde[i], ms[i]) /\ BMulMod(Ev.star[i], Ev.tilde[i], ms[i]) = BMod(<<1>>, ms[i])
            /\ \A j \in 1..k : BMod(Ev.garner[i], ms[j]) = (IF i = j THEN <<1>> ELSE <<>>)
Project == /\ IsEvent("project") /\ Returned(Ev) /\ Len(Ev.r) = Len(Ev.a)
           /\ \A i \in 1..Len(Ev.a) : Ev.r[i] = Residues(Ev.a[i], Ev.ms)
LiftAct == /\ IsEvent("lift") /\ Returned(Ev) /\ Len(Ev.r) = Len(Ev.a)
           /\ \A i \in 1..Len(Ev.a) : /\ BLt(Ev.r[i], Modulus(Ev.ms))
                                      /\ Residues(Ev.r[i], Ev.ms) = Ev.a[i]
(* C15 *)
Sub(to, start, k) == SubSeq(to, start + 1, start + k)
Scale == /\ IsEvent("scale") /\ Returned(Ev) /\ Len(Ev.r) = Len(Ev.a)
         /\ LET q == Modulus(Ev.from)  to == Sub(Ev.to, Ev.start, Ev.count) IN
            \A i \in 1..Len(Ev.a) :
               /\ Len(Ev.r[i]) = Ev.count
               /\ IsScaled(Lift(Ev.a[i], Ev.from), q, Ev.num, Ev.den, Ev.r[i], to)
RqScale == /\ IsEvent("rq_scale") /\ Returned(Ev)
           /\ IsRows(Ev.a, Ev.n, Ev.from) /\ IsRows(Ev.r, Ev.n, Ev.to)
           /\ Ev.rep_out = Ev.rep_in /\ Ev.ctx = Ev.to /\ Ev.after = Ev.a
           /\ IsScaledRows(Ev.a, Ev.from, Ev.num, Ev.den, Ev.r, Ev.to)
(* C16 *)
Switch == /\ IsEvent("switch") /\ Returned(Ev)
          /\ Ev.ctx = SubSeq(Ev.ms, 1, Len(Ev.ms) - Ev.steps)
          /\ IsRows(Ev.a, Ev.n, Ev.ms) /\ IsRows(Ev.r, Ev.n, Ev.ctx)
          /\ LET a == PLift(Ev.a, Ev.ms)  r == PLift(Ev.r, Ev.ctx)
             IN  \A i \in 1..Ev.n : r[i] = SwitchTimes(a[i], Ev.ms, Ev.steps)
Distance == /\ IsEvent("distance") /\ Returned(Ev)
            /\ Ev.r = (IF \E k \in 0..(Len(Ev.ms) - 1) : SubSeq(Ev.ms, 1, Len(Ev.ms) - k) = Ev.to
                       THEN CHOOSE k \in 0..(Len(Ev.ms) - 1) : SubSeq(Ev.ms, 1, Len(Ev.ms) - k) = Ev.to
                       ELSE -1)
Refused == IsEvent("switch_refused") /\ Ev.refused = TRUE

Init == l = 1
Next == \/ Context \/ Project \/ LiftAct \/ Scale \/ RqScale \/ Switch \/ Distance \/ Refused
        \/ Finished /\ UNCHANGED l
=============================================================================
