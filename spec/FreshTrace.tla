----------------------------- MODULE FreshTrace -----------------------------
(***************************************************************************)
(* Recorded histories of encryptions and key generations, with every       *)
(* component (mask c1, masked value c0) they made. The specification knows *)
(* the secrets, so it sees the error of each component. At the end of a    *)
(* history it compares all of them (Fresh.tla: NoneShared) and looks at    *)
(* their distribution. State: where the history starts, and which secret   *)
(* each key has now (by position).                                         *)
(***************************************************************************)
EXTENDS Bfv, Stats, TraceBase, FiniteSets
VARIABLES i0, key
svars == <<i0, key>>
Ok(name) == IsEvent(name) /\ Returned(Ev)
P == [n |-> Log[i0].n, t |-> Log[i0].t, ms |-> Log[i0].ms, var |-> Log[i0].var]
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Start == /\ Ok("history") /\ IsBasis(Ev.ms) /\ i0' = l /\ key' = [k \in {} |-> 0]
Secret == /\ Ok("sk") /\ Len(Ev.s) = P.n /\ SecretMax(Ev.s) <= 2 * P.var
          /\ key' = Put(key, Ev.key, l) /\ UNCHANGED i0
SecretOf(e) == Log[e.at].s          \* e.at: position of the key's event
Count(op, ctlv) == IF op \in {"enc", "encpoly"} THEN 1 ELSE Len(P.ms) - ctlv
Gadget(ms, i) == BMul(Star(ms, i), Tilde(ms, i))
Parts(e) == [i \in 1..Len(e.c) |-> <<PLift(e.c[i].c0, MsAt(P, e.lv)), PLift(e.c[i].c1, MsAt(P, e.lv))>>]
(* the polynomial a key is for *)
Target(e, s) == LET q == QAt(P, e.lv)  sp == PInt(s, q) IN
    CASE e.kind = "gal" -> PSubst(sp, e.k % (2 * P.n), q)
      [] e.kind = "rlk" -> PMul(sp, sp, q)
      [] e.kind = "rgsw0" -> PMul(sp, PLift(e.f, MsAt(P, e.lv)), q)
      [] OTHER -> PLift(e.f, MsAt(P, e.lv))
(* the error of each component; of an encryption of a nonzero message it is*)
(* known up to the rounding of the encoding                                *)
Exact(e) == e.kind # "enc" \/ e.m = PZero(P.n)
ErrorPolys(e, s) ==
    LET q == QAt(P, e.lv)  ps == Parts(e)
        Want(i) == IF e.kind = "enc" THEN [k \in 1..P.n |-> BMod(RoundMag(q, e.m[k], P.t), q)]
                   ELSE IF e.kind = "encpoly" THEN PLift(e.f, MsAt(P, e.lv))
                   ELSE PScale(Target(e, s), BMod(Gadget(MsAt(P, e.ctlv), i), q), q)
    IN  [i \in 1..Len(ps) |-> PSub(Phase(ps[i], s, q), Want(i), q)]
Most == 2 * P.var + 4
Errors(e, s) == LET ps == ErrorPolys(e, s) IN [i \in 1..Len(ps) |-> SmallInts(ps[i], QAt(P, e.lv), Most)]
\* a mask spans the whole range of every modulus and of their product
Spread(row, q) == /\ BLt(q, BMul(<<16>>, PNorm(row, q)))
                  /\ Cardinality({row[j] : j \in 1..P.n}) = P.n
FullMask(rows, ms) == /\ \A i \in 1..Len(ms) : Spread(rows[i], ms[i])
                      /\ Spread(PLift(rows, ms), Modulus(ms))
Components ==
    /\ Ok("comps") /\ UNCHANGED svars
    /\ Ev.at = key[Ev.key]
    /\ Len(Ev.c) = Count(Ev.kind, Ev.ctlv)
    /\ LET ms == MsAt(P, Ev.lv) IN
       \A i \in 1..Len(Ev.c) : /\ IsRows(Ev.c[i].c0, P.n, ms) /\ IsRows(Ev.c[i].c1, P.n, ms)
                               /\ FullMask(Ev.c[i].c1, ms)
    /\ (TRUE =>
          \A e \in {Errors(Ev, SecretOf(Ev))} : \A i \in 1..Len(e) :
              /\ AllWithin(e[i], 2 * P.var + (IF Exact(Ev) THEN 0 ELSE 2))
              /\ CountOf(e[i], 0) < P.n)
(* the end of a history *)
MineSeq == SelectSeq([j \in 1..(l - i0) |-> i0 + j - 1], LAMBDA j : Log[j].op = "comps")
AllMasks == Cat([k \in 1..Len(MineSeq) |-> LET e == Log[MineSeq[k]] IN Cat([i \in 1..Len(e.c) |-> e.c[i].c1])])
MaskRows == AllMasks       \* rows of all masks, one after another
\* up to sign
RECURSIVE Sign(_, _)
Sign(x, i) == IF i > Len(x) THEN 0 ELSE IF x[i] # 0 THEN x[i] ELSE Sign(x, i + 1)
Canon(x) == IF Sign(x, 1) < 0 THEN [i \in 1..Len(x) |-> -x[i]] ELSE x
Buckets(e) == Cat([i \in 1..Len(e.c) |-> BucketsOf(PLift(e.c[i].c1, MsAt(P, e.lv)), QAt(P, e.lv), 16)])
Secrets == SelectSeq([j \in 1..(l - i0) |-> i0 + j - 1], LAMBDA j : Log[j].op = "sk")
End == /\ Ok("end") /\ UNCHANGED svars
       /\ \A rows \in {MaskRows} : Cardinality({rows[i] : i \in 1..Len(rows)}) = Len(rows)
       /\ \A errs \in {Cat([k \in 1..Len(MineSeq) |-> LET e == Log[MineSeq[k]] IN
                          IF ~Exact(e) THEN <<>> ELSE Errors(e, SecretOf(e))])} :
          \A sks \in {[k \in 1..Len(Secrets) |-> Log[Secrets[k]].s]} :
             /\ Cardinality({Canon(errs[i]) : i \in 1..Len(errs)} \cup {Canon(sks[i]) : i \in 1..Len(sks)}) = Len(errs) + Len(sks)
             /\ \A all \in {Cat(errs)} : CbdOk(all, P.var) /\ CbdFree(all, P.var, 3)
       /\ \A b \in {Cat([k \in 1..Len(MineSeq) |-> Buckets(Log[MineSeq[k]])])} : UniHist(b, 16)

(***************************************************************************)
(* PVW keys and encryptions: secrets, public keys of the same secret, and  *)
(* subsets of encryptions of the same message                              *)
(***************************************************************************)
Dev(sk, a, b, q) == [k \in 1..Len(sk) |-> BSubMod(b[k], PDot(sk[k], a, q), q)]
Pvw == /\ Ok("pvw") /\ UNCHANGED svars
       /\ LET q == Ev.q  np == Len(Ev.pks)  ns == Len(Ev.sks)
              as == Cat([i \in 1..np |-> Ev.pks[i].a])
          IN  /\ Cardinality({Ev.sks[i] : i \in 1..ns}) = ns
              /\ \A rows \in {Cat(Ev.sks)} : Cardinality({rows[i] : i \in 1..Len(rows)}) = Len(rows)
              \* mask rows of all public keys
              /\ Cardinality({as[i] : i \in 1..Len(as)}) = Len(as)
              /\ \A b \in {Cat([i \in 1..Len(as) |-> BucketsOf(as[i], q, 16)])} : UniHist(b, 16)
              /\ \A devs \in {[i \in 1..np |-> [r \in 1..Len(Ev.pks[i].a) |->
                                  SmallInts(Dev(Ev.sks[Ev.pks[i].sk], Ev.pks[i].a[r], Ev.pks[i].b[r], q), q, 2 * Ev.var)]]} :
                    /\ \A all \in {Cat([i \in 1..np |-> Cat(devs[i])])} : CbdOk(all, Ev.var)
                    \* as a whole the errors of a key are its own
                    /\ Cardinality({Cat(devs[i]) : i \in 1..np}) = np
                    \* and so are those of every bit
                    /\ \A cols \in {Cat([i \in 1..np |-> [k \in 1..Len(Ev.sks[1]) |->
                                        Canon([r \in 1..Len(devs[i]) |-> devs[i][r][k]])]])} :
                          Cardinality({cols[i] : i \in 1..Len(cols)}) = Len(cols)
              \* ciphertexts of the same message
              /\ Cardinality({Ev.cts[i] : i \in 1..Len(Ev.cts)}) = Len(Ev.cts)

(* very many components of one kind, or secrets, or errors: all different. *)
(* Their entropy makes a repetition impossible in practice; a generator     *)
(* seeded with too few bits repeats.                                       *)
Many == /\ Ok("many") /\ UNCHANGED svars /\ Len(Ev.v) >= Ev.count /\ AllDistinct(Ev.v)

Init == l = 1 /\ i0 = 0 /\ key = <<>>
Next == Start \/ Secret \/ Components \/ End \/ Pvw \/ Many \/ (Finished /\ UNCHANGED <<l, svars>>)
View == l
Alias == [l |-> l]
=============================================================================
