------------------------------- MODULE RnsBij -------------------------------
(***************************************************************************)
(* The residue representation of src/rns.rs as a two-way translation:      *)
(* project an integer to its residues one prime at a time, lift residues   *)
(* by accumulating gadget elements. Over every basis in Bases and every    *)
(* integer below the product the two are inverse to each other.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Bases
BasesV == { <<2>>, <<3>>, <<2, 3>>, <<3, 2, 5>>, <<7, 5, 3>>, <<2, 3, 5, 7>>, <<11, 13>>, <<13, 3, 2>>, <<17, 5, 7>> }
BasesT == BasesV \cup { <<2, 3, 5, 7, 11>>, <<13, 11, 7>>, <<31, 29>>, <<3, 5, 7, 11>> }
VARIABLES pc, ms, x, r, acc, i
vars == <<pc, ms, x, r, acc, i>>
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
Q == Prod(ms)
Star(k) == Q \div ms[k]
Tilde(k) == CHOOSE z \in 0..(ms[k] - 1) : (Star(k) * z) % ms[k] = 1 % ms[k]
Gadget(k) == Star(k) * Tilde(k)

Init == /\ pc = "project" /\ r = <<>> /\ acc = 0 /\ i = 1
        /\ \E b \in Bases : ms = b /\ x \in 0..(Prod(b) - 1)
Project == /\ pc = "project" /\ i <= Len(ms)
           /\ r' = Append(r, x % ms[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, ms, x, acc>>
Turn == /\ pc = "project" /\ i > Len(ms) /\ pc' = "lift" /\ i' = 1 /\ UNCHANGED <<ms, x, r, acc>>
LiftStep == /\ pc = "lift" /\ i <= Len(ms)
            /\ acc' = acc + r[i] * Gadget(i) /\ i' = i + 1 /\ UNCHANGED <<pc, ms, x, r>>
Done == /\ pc = "lift" /\ i > Len(ms) /\ pc' = "done" /\ acc' = acc % Q /\ UNCHANGED <<ms, x, r, i>>
Next == Project \/ Turn \/ LiftStep \/ Done \/ (pc = "done" /\ UNCHANGED vars)

GadgetDef == pc = "project" /\ i = 1 /\ x = 0 =>
    \A k, j \in 1..Len(ms) : Gadget(k) % ms[j] = (IF j = k THEN 1 % ms[j] ELSE 0)
Canonical == \A k \in 1..Len(r) : r[k] \in 0..(ms[k] - 1)
RoundTrip == pc = "done" => acc = x
\* distinct numbers have distinct residues, checked through the inverse: the
\* number is determined by its residues
Unique == pc = "done" /\ Q <= 60 =>
    \A y \in 0..(Q - 1) : (\A k \in 1..Len(ms) : y % ms[k] = r[k]) => y = x
=============================================================================
