------------------------------ MODULE RingProg ------------------------------
(***************************************************************************)
(* Programs over polynomial registers: what a caller of src/rq.rs may do.  *)
(* The state is what decides which operation is allowed next: the          *)
(* representation and the context (moduli dropped so far) of each          *)
(* register, and whether its content is known to be invertible. TLC draws  *)
(* behaviours of this machine; harness/src/ringsuite.rs runs them on the   *)
(* code, RingTrace.tla decides about the results.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Regs, Levels, Depth, Kinds, Exps
VARIABLES rep, lvl, unit, prog
vars == <<rep, lvl, unit, prog>>
S(n) == ToString(n)
Emit(s) == prog' = Append(prog, s)
Put(d, r, l, u) == /\ rep' = [rep EXCEPT ![d] = r] /\ lvl' = [lvl EXCEPT ![d] = l] /\ unit' = [unit EXCEPT ![d] = u]

Init == /\ rep = [r \in Regs |-> "power"] /\ lvl = [r \in Regs |-> 0] /\ unit = [r \in Regs |-> FALSE]
        /\ prog = <<>>
New(d) == \E k \in Kinds, how \in {"big", "u64", "i64"} :
    Put(d, "power", 0, FALSE) /\ Emit("new " \o S(d) \o " " \o how \o " " \o S(k))
Unit(d) == Put(d, "power", 0, TRUE) /\ Emit("unit " \o S(d))
Same(a, b) == rep[a] = "ntt" /\ rep[b] = "ntt" /\ lvl[a] = lvl[b]
Bin(d, a, b) == Same(a, b) /\
    \/ Put(d, "ntt", lvl[a], FALSE) /\ \E o \in {"add", "sub"} : Emit(o \o " " \o S(d) \o " " \o S(a) \o " " \o S(b))
    \/ Put(d, "ntt", lvl[a], unit[a] /\ unit[b]) /\ Emit("mul " \o S(d) \o " " \o S(a) \o " " \o S(b))
Into(d, a) == Same(d, a) /\
    \/ Put(d, "ntt", lvl[a], FALSE) /\ \E o \in {"addto", "subto"} : Emit(o \o " " \o S(d) \o " " \o S(a))
    \/ Put(d, "ntt", lvl[a], unit[a] /\ unit[d]) /\ Emit("multo " \o S(d) \o " " \o S(a))
Neg(d, a) == Put(d, rep[a], lvl[a], unit[a]) /\ Emit("neg " \o S(d) \o " " \o S(a))
Scale(d, a) == rep[a] = "ntt" /\ \E k \in 0..5 :
    Put(d, "ntt", lvl[a], FALSE) /\ Emit("scale " \o S(d) \o " " \o S(a) \o " " \o S(k))
Inverse(d, a) == rep[a] = "ntt" /\ unit[a] /\ Put(d, "ntt", lvl[a], TRUE) /\ Emit("inv " \o S(d) \o " " \o S(a))
Subst(d, a) == \E k \in Exps : Put(d, rep[a], lvl[a], unit[a]) /\ Emit("subst " \o S(d) \o " " \o S(a) \o " " \o S(k))
Rep(d) == \E r \in {"power", "ntt"} : Put(d, r, lvl[d], unit[d]) /\ Emit("rep " \o S(d) \o " " \o r)
Down(d) == rep[d] = "power" /\ lvl[d] + 1 \in Levels /\ Put(d, "power", lvl[d] + 1, FALSE) /\ Emit("down " \o S(d))
To(d) == rep[d] = "power" /\ \E l \in Levels : l >= lvl[d] /\ Put(d, "power", l, FALSE) /\ Emit("to " \o S(d) \o " " \o S(l))
Zero(d) == \E r \in {"power", "ntt"}, l \in Levels : Put(d, r, l, FALSE) /\ Emit("zero " \o S(d) \o " " \o r \o " " \o S(l))
Read(d) == rep[d] = "power" /\ UNCHANGED <<rep, lvl, unit>> /\ Emit("read " \o S(d))

(* A behaviour starts by filling registers; afterwards each kind of step   *)
(* has its turn, so that no kind crowds out the others.                    *)
Turn == Len(prog) % 8
Next == Len(prog) < Depth /\ \E d, a, b \in Regs :
    CASE Len(prog) = 3 -> Unit(d)
      [] Len(prog) < 3 -> New(d)
      [] Len(prog) = 4 -> unit[d] /\ Rep(d)
      [] Len(prog) \in {5, 6} -> Rep(d) \/ Rep(d)
      [] Len(prog) >= 7 /\ Turn \in {0, 3} -> IF \E x, y \in Regs : Same(x, y) THEN Bin(d, a, b) ELSE Rep(d)
      [] Len(prog) >= 7 /\ Turn = 1 -> IF \E x \in Regs : rep[x] = "ntt" /\ unit[x] THEN Inverse(d, a)
                                        ELSE IF \E x \in Regs : rep[x] = "ntt" THEN Scale(d, a) ELSE Subst(d, a)
      [] Len(prog) >= 7 /\ Turn = 2 -> IF \E x \in Regs : unit[x] THEN New(d) \/ Zero(d) \/ Scale(d, a) ELSE Unit(d)
      [] Len(prog) >= 7 /\ Turn = 4 -> IF \E x, y \in Regs : Same(x, y) THEN Into(d, a) ELSE Neg(d, a)
      [] Len(prog) >= 7 /\ Turn = 5 -> IF \E x \in Regs : rep[x] = "power" THEN Down(d) \/ To(d) \/ Read(d) \/ Read(d) ELSE Neg(d, a)
      [] Len(prog) >= 7 /\ Turn = 6 -> Subst(d, a) \/ Neg(d, a)
      [] Len(prog) >= 7 /\ Turn = 7 -> Rep(d) \/ Read(d)
Printed == Len(prog) < Depth \/ PrintT(<<"PROG">> \o prog)
=============================================================================
