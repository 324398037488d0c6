------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Design of parameter generation (src/utils.rs generate_prime, src/bfv.rs *)
(* generate_moduli and the extension basis of BfvParameters::new) with     *)
(* small numbers: the descending search is modelled step by step, its      *)
(* result is compared with the declarative meaning for every list of sizes *)
(* and every degree, also when there are not enough primes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes,      \* bit sizes asked for
          Most,       \* longest list
          Degrees
VARIABLES n, sizes, found, bound, cand, st, ext, ebound
vars == <<n, sizes, found, bound, cand, st, ext, ebound>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Prime(p) == p >= 2 /\ \A d \in 2..(p - 1) : d * d > p \/ p % d # 0
Lists == UNION {[1..k -> Sizes] : k \in 1..Most}
Top == CHOOSE b \in Sizes : \A c \in Sizes : c <= b
(* all primes of exactly b bits congruent 1 modulo 2n; computed once *)
Pool == [b \in Sizes, m \in Degrees |-> {p \in Pow2(b - 1)..(Pow2(b) - 1) : p % (2 * m) = 1 /\ Prime(p)}]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the meaning: the largest remaining prime, size after size *)
RECURSIVE Meaning(_, _)
Meaning(sz, m) == IF Len(sz) = 0 THEN <<>>
    ELSE LET r == Meaning(SubSeq(sz, 1, Len(sz) - 1), m)
             left == Pool[sz[Len(sz)], m] \ {r[i] : i \in 1..Len(r)}
         IN  IF r = <<0>> \/ left = {} THEN <<0>> ELSE Append(r, Max(left))
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
InSize(p, b) == p >= Pow2(b - 1) /\ p < Pow2(b)
Init == /\ n \in Degrees /\ sizes \in Lists /\ found = <<>> /\ st = "next"
        /\ bound = 0 /\ cand = 0 /\ ext = <<>> /\ ebound = Pow2(Top)
Size == sizes[Len(found) + 1]
Begin == /\ st = "next" /\ Len(found) < Len(sizes)
         /\ bound' = Pow2(Size) /\ cand' = bound' - 1 /\ st' = "align"
         /\ UNCHANGED <<n, sizes, found, ext, ebound>>
(* down to the right residue, then in steps of 2n to a prime *)
Align == /\ st = "align"
         /\ IF cand % (2 * n) # 1 /\ InSize(cand, Size) THEN cand' = cand - 1 /\ st' = st ELSE cand' = cand /\ st' = "search"
         /\ UNCHANGED <<n, sizes, found, bound, ext, ebound>>
Search == /\ st = "search"
          /\ IF InSize(cand, Size) /\ cand % (2 * n) = 1 /\ Prime(cand)
             THEN IF Has(found, cand)
                  THEN bound' = cand /\ cand' = cand - 1 /\ st' = "align" /\ found' = found
                  ELSE found' = Append(found, cand) /\ st' = "next" /\ UNCHANGED <<bound, cand>>
             ELSE IF InSize(cand, Size) /\ cand >= 2 * n
                  THEN cand' = cand - 2 * n /\ UNCHANGED <<found, bound, st>>
                  ELSE st' = "none" /\ UNCHANGED <<found, bound, cand>>
          /\ UNCHANGED <<n, sizes, ext, ebound>>
(* the extension basis: as many and one more primes of the top size *)
Extend == /\ st = "next" /\ Len(found) = Len(sizes) /\ Len(ext) < Len(sizes) + 1
          /\ LET below == {p \in Pool[Top, n] : p < ebound} IN
             IF below = {} THEN st' = "short" /\ UNCHANGED <<ext, ebound>>
             ELSE /\ ebound' = Max(below) /\ st' = st
                  /\ ext' = IF Has(found, Max(below)) \/ Has(ext, Max(below)) THEN ext ELSE Append(ext, Max(below))
          /\ UNCHANGED <<n, sizes, found, bound, cand>>
Next == Begin \/ Align \/ Search \/ Extend
Result == /\ (st = "none" => Meaning(sizes, n) = <<0>>)
          /\ (st = "next" /\ Len(found) = Len(sizes) => found = Meaning(sizes, n))
Sound == \A i \in 1..Len(found) : /\ found[i] \in Pool[sizes[i], n]
                                  /\ \A j \in 1..Len(found) : i # j => found[i] # found[j]
Disjoint == /\ \A i \in 1..Len(ext) : ~Has(found, ext[i]) /\ ext[i] \in Pool[Top, n]
            /\ \A i, j \in 1..Len(ext) : i # j => ext[i] # ext[j]
            \* it gives up only when there really are not enough
            /\ (st = "short" => Cardinality(Pool[Top, n] \ {found[i] : i \in 1..Len(found)}) <= Len(sizes))
=============================================================================
