----------------------------- MODULE RingTrace -----------------------------
(***************************************************************************)
(* Recorded programs over polynomial registers (src/rq.rs). The state of   *)
(* the specification is the registers: residue rows (coefficients), moduli *)
(* and representation; every event carries all registers after the         *)
(* operation, so that an operation that alters anything but its            *)
(* destination is not explained by any action.                             *)
(***************************************************************************)
EXTENDS Rns, TraceBase
VARIABLES n, ms, reg
svars == <<n, ms, reg>>

Rows2(a, b, m, F(_, _, _)) == [i \in 1..Len(m) |-> F(a[i], b[i], m[i])]
Value(rows, m, r) == [rows |-> rows, ms |-> m, rep |-> r]
\* the registers the event reports
Seen == [r \in DOMAIN reg |-> Value(Ev.rows[r], Ev.mods[r], Ev.reps[r])]
Set(d, v) == reg' = [reg EXCEPT ![d] = v] /\ reg' = Seen /\ UNCHANGED <<n, ms>>
D == Ev.d + 1
A == reg[Ev.a + 1]
B == reg[Ev.b + 1]
Ok(name) == IsEvent(name) /\ Returned(Ev)
Alike(x, y) == x.rep = "ntt" /\ y.rep = "ntt" /\ x.ms = y.ms

Start == /\ IsEvent("start") /\ IsBasis(Ev.ms)
         /\ n' = Ev.n /\ ms' = Ev.ms
         /\ reg' = [r \in 1..Ev.regs |-> Value([i \in 1..Len(Ev.ms) |-> PZero(Ev.n)], Ev.ms, "power")]
\* from integers: every coefficient modulo every prime, padded with zeros
Pad(c) == [i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE <<>>]
New == /\ Ok("new") /\ Set(D, Value(PRows(Pad(Ev.coeffs), ms), ms, "power"))
NewSigned == /\ Ok("newi")
             /\ Set(D, Value([i \in 1..Len(ms) |->
                    [k \in 1..n |-> IF k > Len(Ev.coeffs) THEN <<>>
                                    ELSE IF Ev.neg[k] THEN BNegMod(Ev.coeffs[k], ms[i]) ELSE BMod(Ev.coeffs[k], ms[i])]], ms, "power"))
Add == Ok("add") /\ Alike(A, B) /\ Set(D, Value(Rows2(A.rows, B.rows, A.ms, PAdd), A.ms, "ntt"))
Sub == Ok("sub") /\ Alike(A, B) /\ Set(D, Value(Rows2(A.rows, B.rows, A.ms, PSub), A.ms, "ntt"))
Mul == Ok("mul") /\ Alike(A, B) /\ Set(D, Value(Rows2(A.rows, B.rows, A.ms, PMul), A.ms, "ntt"))
AddTo == Ok("addto") /\ Alike(reg[D], A) /\ Set(D, Value(Rows2(reg[D].rows, A.rows, A.ms, PAdd), A.ms, "ntt"))
SubTo == Ok("subto") /\ Alike(reg[D], A) /\ Set(D, Value(Rows2(reg[D].rows, A.rows, A.ms, PSub), A.ms, "ntt"))
MulTo == Ok("multo") /\ Alike(reg[D], A) /\ Set(D, Value(Rows2(reg[D].rows, A.rows, A.ms, PMul), A.ms, "ntt"))
Neg == Ok("neg") /\ Set(D, Value([i \in 1..Len(A.ms) |-> PNeg(A.rows[i], A.ms[i])], A.ms, A.rep))
Scale == Ok("scale") /\ A.rep = "ntt"
         /\ Set(D, Value([i \in 1..Len(A.ms) |-> PScale(A.rows[i], Ev.c, A.ms[i])], A.ms, "ntt"))
Inverse == /\ Ok("inv") /\ A.rep = "ntt" /\ UNCHANGED <<n, ms>>
           /\ reg' = Seen
           /\ \A r \in DOMAIN reg : r # D => Seen[r] = reg[r]
           /\ Seen[D].ms = A.ms /\ Seen[D].rep = "ntt" /\ IsRows(Seen[D].rows, n, A.ms)
           /\ \A i \in 1..Len(A.ms) : PMul(Seen[D].rows[i], A.rows[i], A.ms[i]) = PConst(<<1>>, n)
Exp == BToInt(BMod(Ev.k, BOf(2 * n)))      \* exponents of any size
Subst == Ok("subst") /\ Exp % 2 = 1
         /\ Set(D, Value([i \in 1..Len(A.ms) |-> PSubst(A.rows[i], Exp, A.ms[i])], A.ms, A.rep))
Rep == Ok("rep") /\ Set(D, [reg[D] EXCEPT !.rep = Ev.to])
Lower(v, k) == Value(LET x == PLift(v.rows, v.ms)
                     IN  PRows([i \in 1..n |-> SwitchTimes(x[i], v.ms, k)], SubSeq(v.ms, 1, Len(v.ms) - k)),
                     SubSeq(v.ms, 1, Len(v.ms) - k), "power")
Down == Ok("down") /\ reg[D].rep = "power" /\ Len(reg[D].ms) > 1 /\ Set(D, Lower(reg[D], 1))
To == Ok("to") /\ reg[D].rep = "power" /\ Ev.k <= Len(reg[D].ms)
      /\ Set(D, Lower(reg[D], Len(reg[D].ms) - Ev.k))
Read == /\ Ok("read") /\ Set(D, reg[D]) /\ Ev.r = PLift(reg[D].rows, reg[D].ms)
        /\ ("w" \in DOMAIN Ev => Ev.w = reg[D].rows[1])
Zero == Ok("zero") /\ Ev.k \in 1..Len(ms) /\ Set(D, Value([i \in 1..Ev.k |-> PZero(n)], SubSeq(ms, 1, Ev.k), Ev.to))

Init == l = 1 /\ n = 0 /\ ms = <<>> /\ reg = <<>>
Next == \/ Start \/ New \/ NewSigned \/ Add \/ Sub \/ Mul \/ AddTo \/ SubTo \/ MulTo \/ Neg \/ Scale \/ Inverse
        \/ Subst \/ Rep \/ Down \/ To \/ Read \/ Zero
        \/ Finished /\ UNCHANGED <<l, svars>>
View == l
Alias == [l |-> l]
=============================================================================
