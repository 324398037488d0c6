------------------------------ MODULE CbdPool ------------------------------
(***************************************************************************)
(* Design of sample_vec_cbd (src/utils.rs): coefficients are cut from a    *)
(* pool of random bits that is refilled by whole words. Bits are tracked   *)
(* by identity: word w, bit b is w * W + b. Checked for every width of a   *)
(* coefficient that fits a word and vectors of up to Size coefficients.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Size
VARIABLES half, pool, words, out
vars == <<half, pool, words, out>>
Need == 2 * half
Init == /\ half \in 1..(W \div 2) /\ pool = <<>> /\ words = 0 /\ out = <<>>
Refill == /\ Len(out) < Size /\ Len(pool) < Need
          /\ pool' = pool \o [i \in 1..W |-> words * W + i] /\ words' = words + 1
          /\ UNCHANGED <<half, out>>
Cut == /\ Len(out) < Size /\ Len(pool) >= Need
       /\ out' = Append(out, [plus |-> {pool[i] : i \in 1..half}, minus |-> {pool[i] : i \in (half + 1)..Need}])
       /\ pool' = SubSeq(pool, Need + 1, Len(pool))
       /\ UNCHANGED <<half, words>>
Next == Refill \/ Cut
FitsTwoWords == Len(pool) <= 2 * W                  \* the pool is a 2W-bit integer
Enough == \A i \in 1..Len(out) : Cardinality(out[i].plus) = half /\ Cardinality(out[i].minus) = half
Disjoint == /\ \A i \in 1..Len(out) : out[i].plus \cap out[i].minus = {}
            /\ \A i, j \in 1..Len(out) : i # j =>
                   (out[i].plus \cup out[i].minus) \cap (out[j].plus \cup out[j].minus) = {}
Unread == \A i \in 1..Len(out) : \A j \in 1..Len(pool) : pool[j] \notin out[i].plus \cup out[i].minus
=============================================================================
