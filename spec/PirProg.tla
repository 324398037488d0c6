------------------------------ MODULE PirProg ------------------------------
(***************************************************************************)
(* Histories of the query protocol: clients appear, send queries for one   *)
(* of a few positions (also the same ones), the server answers queries in  *)
(* any order, any number of times, also after later ones were sent. A      *)
(* client may renew its evaluation key, derive a query from an older one   *)
(* (same masks, other position), and the server may confuse the evaluation *)
(* keys of two clients or receive a query of the wrong form, which must    *)
(* not affect later answers. TLC draws                                     *)
(* them; harness/src/pirsuite.rs runs them, PirTrace.tla decides.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Clients, Slots, Positions, Depth
VARIABLES cl, slot, answered, prog
Emit(s) == Len(prog) < Depth /\ prog' = Append(prog, s)
S(n) == ToString(n)
Init == cl = {} /\ slot = [q \in Slots |-> FALSE] /\ answered = [q \in Slots |-> 0] /\ prog = <<>>
NewClient == \E c \in Clients : c \notin cl /\ cl' = cl \cup {c} /\ UNCHANGED <<slot, answered>> /\ Emit("client " \o S(c))
Query == \E q \in Slots, c \in cl, x \in Positions :
    /\ slot' = [slot EXCEPT ![q] = TRUE] /\ answered' = [answered EXCEPT ![q] = 0] /\ UNCHANGED cl
    /\ (slot[q] => answered[q] > 0)
    /\ Emit("query " \o S(q) \o " " \o S(c) \o " " \o S(x))
Answer == \E q \in Slots : slot[q] /\ answered[q] < 2 /\ answered' = [answered EXCEPT ![q] = @ + 1]
    /\ UNCHANGED <<cl, slot>> /\ Emit("answer " \o S(q))
\* slot q becomes a query derived from the one in slot o
Shift == \E q, o \in Slots, x \in Positions :
    /\ slot[o] /\ q # o /\ (slot[q] => answered[q] > 0)
    /\ slot' = [slot EXCEPT ![q] = TRUE] /\ answered' = [answered EXCEPT ![q] = 0] /\ UNCHANGED cl
    /\ Emit("shift " \o S(q) \o " " \o S(o) \o " " \o S(x))
Rekey == \E c \in cl : UNCHANGED <<cl, slot, answered>> /\ Emit("rekey " \o S(c))
Mixed == \E q \in Slots, c \in cl : slot[q] /\ UNCHANGED <<cl, slot, answered>> /\ Emit("mixed " \o S(q) \o " " \o S(c))
\* the server's first step alone, on the ciphertext i of a query
Unpack == \E q \in Slots, c \in cl, i \in 0..2 : slot[q] /\ UNCHANGED <<cl, slot, answered>>
    /\ Emit("unpack " \o S(q) \o " " \o S(c) \o " " \o S(i))
\* the server is given a query of the wrong form
Bad == \E q \in Slots, i \in 0..5 : slot[q] /\ UNCHANGED <<cl, slot, answered>> /\ Emit("bad " \o S(q) \o " " \o S(i))
Next == Bad \/ Unpack \/ Shift \/ Rekey \/ Mixed \/ NewClient \/ Query \/ Answer \/ Answer
Printed == Len(prog) < Depth \/ PrintT(<<"PROG">> \o prog)
=============================================================================
