------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Design of key material and ciphertext randomness. Everything random is  *)
(* drawn from a source whose draws are pairwise different (an ideal        *)
(* generator; 'drawn' counts them). A component is a pair (mask, masked    *)
(* value); its mask is expanded from a seed of its own and its error is a  *)
(* draw of its own. An operation makes a number of components that depends *)
(* on levels only:                                                         *)
(*   enc, encpoly            1                                             *)
(*   ksk, gal, rlk at level  one per modulus of what is switched           *)
(*   rgsw                    two such keys                                 *)
(* Checked: no two components of a history share a mask or an error, no    *)
(* two keys a secret, whatever operations, levels and keys it has. The     *)
(* histories printed are replayed on the code by harness/src/freshsuite.rs *)
(* and decided by FreshTrace.tla.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L, Keys, Depth
VARIABLES drawn, sk, comps, prog
vars == <<drawn, sk, comps, prog>>
S(n) == ToString(n)
Levels == 0..(L - 1)
Emit(s) == Len(prog) < Depth /\ prog' = Append(prog, s)
(* components of an operation *)
Count(op, ctlv) == CASE op \in {"enc", "encpoly"} -> 1
                     [] op \in {"ksk", "gal", "rlk"} -> L - ctlv
                     [] op = "rgsw" -> 2 * (L - ctlv)
Make(op, k, lv) ==
    LET c == Count(op, lv)
    IN  /\ comps' = comps \cup {[by |-> Len(prog), i |-> i, key |-> sk[k], seed |-> drawn + 2 * i - 1, err |-> drawn + 2 * i] : i \in 1..c}
        /\ drawn' = drawn + 2 * c
        /\ UNCHANGED sk
Init == drawn = Cardinality(Keys) /\ sk = [k \in Keys |-> k] /\ comps = {} /\ prog = <<>>
NewKey == \E k \in Keys : /\ sk' = [sk EXCEPT ![k] = drawn + 1] /\ drawn' = drawn + 1 /\ UNCHANGED comps
                          /\ Emit("sk " \o S(k))
One == \E op \in {"enc", "encpoly", "gal", "rlk", "rgsw"}, k \in Keys, lv \in Levels, x \in 0..2 :
          Make(op, k, lv) /\ Emit(op \o " " \o S(k) \o " " \o S(lv) \o " " \o S(x))
Key == \E k \in Keys, ct \in Levels, kl \in Levels, x \in 0..2 :
          kl <= ct /\ Make("ksk", k, ct) /\ Emit("ksk " \o S(k) \o " " \o S(ct) \o " " \o S(kl) \o " " \o S(x))
Next == NewKey \/ One \/ Key \/ One
Masks == {c.seed : c \in comps}
Errors == {c.err : c \in comps}
NoneShared == /\ Cardinality(Masks) = Cardinality(comps)
              /\ Cardinality(Errors) = Cardinality(comps)
              /\ Masks \cap Errors = {}
              /\ \A k \in Keys : sk[k] \notin Masks \cup Errors
              /\ \A j, k \in Keys : j # k => sk[j] # sk[k]
InRange == \A c \in comps : c.seed <= drawn /\ c.err <= drawn
Printed == Len(prog) < Depth \/ PrintT(<<"PROG">> \o prog)
\* histories that differ in arguments without influence on the model
View == <<drawn, sk, comps, Len(prog)>>
=============================================================================
