------------------------------ MODULE BfvProg ------------------------------
(***************************************************************************)
(* Programs over ciphertext registers: which operation a caller may do     *)
(* next depends on the level and the number of parts of the registers.     *)
(* TLC draws behaviours; harness/src/bfvsuite.rs runs them on the code,    *)
(* BfvTrace.tla decides about the results. work counts the noise-doubling  *)
(* operations a register went through, so that most programs stay within   *)
(* the noise budget.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Regs, Levels, Depth, Ops, MaxParts, MaxWork, Exps
VARIABLES parts, lvl, work, prog
vars == <<parts, lvl, work, prog>>
S(n) == ToString(n)
Cat(op, a) == op \o " " \o a
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE " " \o S(s[i]) \o Join(s, i + 1)
Emit(op, args) == Len(prog) < Depth /\ prog' = Append(prog, op \o Join(args, 1))
Put(d, k, lv, w) == /\ parts' = [parts EXCEPT ![d] = k] /\ lvl' = [lvl EXCEPT ![d] = lv] /\ work' = [work EXCEPT ![d] = w]
Keep == UNCHANGED <<parts, lvl, work>>
Def(r) == parts[r] > 0
Max(a, b) == IF a >= b THEN a ELSE b
Live == {r \in Regs : Def(r)}

Init == /\ parts = [r \in Regs |-> 0] /\ lvl = [r \in Regs |-> 0] /\ work = [r \in Regs |-> 0] /\ prog = <<>>

Enc == "enc" \in Ops /\ \E d \in Regs, lv \in Levels, e \in 0..3 : Put(d, 2, lv, 0) /\ Emit("enc", <<d, lv, e>>)
EncPoly == "encpoly" \in Ops /\ \E d \in Regs, lv \in Levels : Put(d, 2, lv, 2) /\ Emit("encpoly", <<d, lv>>)
Craft == "craft" \in Ops /\ \E d \in Regs, lv \in Levels, k \in 1..MaxParts, e \in 0..5 :
            Put(d, k, lv, MaxWork) /\ Emit("craft", <<d, lv, k, e>>)
\* a copy that shares some parts with another register: part i new, or all others
Variant == "variant" \in Ops /\ \E d \in Regs, a \in Live, i \in 0..2, o \in 0..1 :
    i < parts[a] /\ Put(d, parts[a], lvl[a], MaxWork) /\ Emit("variant", <<d, a, i, o>>)
Pair(a, b) == Def(a) /\ Def(b) /\ lvl[a] = lvl[b]
Add == \E o \in {"add", "sub"} \cap Ops, d \in Regs, a, b \in Live :
    Pair(a, b) /\ Put(d, Max(parts[a], parts[b]), lvl[a], Max(work[a], work[b])) /\ Emit(o, <<d, a, b>>)
Plain == \E o \in {"addpt", "mulpt"} \cap Ops, d \in Regs, a \in Live, k \in 0..3 :
    work[a] < MaxWork + 1 /\ Put(d, parts[a], lvl[a], work[a] + (IF o = "mulpt" THEN 1 ELSE 0)) /\ Emit(o, <<d, a, k>>)
Poly == \E o \in {"addpoly", "mulpoly", "mulbig"} \cap Ops, d \in Regs, a \in Live, k \in 0..3 :
    Put(d, parts[a], lvl[a], work[a]) /\ Emit(o, <<d, a, k>>)
\* lists of one to seventy operands, taken from three registers
List(a, b, c, k, st) == [i \in 1..k |-> <<a, b, c>>[1 + (((i - 1) * st) % 3)]]
RECURSIVE MaxOf(_, _, _)
MaxOf(f, s, i) == IF i > Len(s) THEN 0 ELSE Max(f[s[i]], MaxOf(f, s, i + 1))
Inner == "inner" \in Ops /\ \E d \in Regs, a, b, c \in Live, len \in (1..9) \cup {17, 18, 33, 70} : \E k \in {(a + len) % 4} :
    /\ Pair(a, b) /\ Pair(a, c)
    /\ \E s \in {List(a, b, c, len, 1 + (len % 2))} :
        Put(d, MaxOf(parts, s, 1), lvl[a], MaxOf(work, s, 1)) /\ Emit("inner", <<d, k>> \o s)
Mul == "mul" \in Ops /\ \E d \in Regs, a, b \in Live :
    /\ Pair(a, b) /\ parts[a] + parts[b] - 1 <= MaxParts /\ work[a] + work[b] < MaxWork
    /\ Put(d, parts[a] + parts[b] - 1, lvl[a], work[a] + work[b] + 1) /\ Emit("mul", <<d, a, b>>)
MulRelin == "mulrelin" \in Ops /\ \E d \in Regs, a, b \in Live :
    /\ Pair(a, b) /\ parts[a] = 2 /\ parts[b] = 2 /\ work[a] + work[b] < MaxWork
    /\ Put(d, 2, lvl[a], work[a] + work[b] + 1) /\ Emit("mulrelin", <<d, a, b>>)
Relin == "relin" \in Ops /\ \E d \in Regs, a \in Live : parts[a] = 3 /\ Put(d, 2, lvl[a], work[a]) /\ Emit("relin", <<d, a>>)
Galois == "galois" \in Ops /\ \E d \in Regs, a \in Live, k \in Exps :
    parts[a] = 2 /\ Put(d, 2, lvl[a], work[a]) /\ Emit("galois", <<d, a, k>>)
External == "external" \in Ops /\ \E d \in Regs, a \in Live, k \in 0..4, h \in 0..1 :
    parts[a] = 2 /\ Put(d, 2, lvl[a], work[a] + 1) /\ Emit("external", <<d, a, k, h>>)
Observe == \E o \in {"dec", "noise", "trial"} \cap Ops, a \in Live :
    (o = "trial" => parts[a] = 2) /\ Keep /\ Emit(o, <<a>>)

Next == \/ Enc \/ EncPoly \/ Craft \/ Variant \/ Add \/ Plain \/ Poly \/ Inner \/ Mul \/ MulRelin \/ Relin \/ Galois \/ External \/ Observe
\* nothing to observe: start over with encryptions
Printed == Len(prog) < Depth \/ PrintT(<<"PROG">> \o prog)
=============================================================================
