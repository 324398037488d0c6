---------------------------- MODULE ExpandTrace ----------------------------
(***************************************************************************)
(* Recorded expansions: leaf k stands for coefficient k of the expanded    *)
(* noisy value, as a constant, up to N - 1 key switches; and decrypts to   *)
(* the constant polynomial holding coefficient k of the message.           *)
(***************************************************************************)
EXTENDS BfvTrace
LeafErr == BMul(BOf(P.n - 1), SwitchBound(P, A.lv, ErrB(P)))
Leaf(k, x, vals) ==
    /\ WellFormed(x) /\ x.lv = A.lv /\ Len(x.parts) = 2
    /\ LET c == Lifted(x)  ph == Phase(c, s, Q)  m == PConst(A.m[k], P.n)
           b == BAdd(A.b, BMul(P.t, LeafErr))
       IN  /\ BLe(PNorm(PSub(ph, PConst(A.ph[k], P.n), Q), Q), LeafErr)
           /\ BLe(Noise(P, A.lv, ph, m), b)
           /\ IsMsg(vals) /\ IsDecryption(P, A.lv, ph, vals)
           /\ (InBudget(P, A.lv, b) => vals = m)
Expand == /\ Ok("expand") /\ UNCHANGED svars
          /\ Len(Ev.leaves) = P.n /\ Len(Ev.ms) = P.n
          /\ \A k \in 1..P.n : Leaf(k, Ev.leaves[k], Ev.ms[k])
(* in a large ring, with fresh keys: leaf k decrypts to coefficient k of    *)
(* the message and nothing else (c: its constant, rest: how many others)   *)
Spread == /\ Ok("spread") /\ UNCHANGED svars
          /\ Len(Ev.v) = Ev.n /\ Ev.c = Ev.v
          /\ Len(Ev.rest) = Ev.n /\ \A k \in 1..Ev.n : Ev.rest[k] = 0
NextX == Next \/ Expand \/ Spread
=============================================================================
