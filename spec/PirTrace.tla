------------------------------ MODULE PirTrace ------------------------------
(***************************************************************************)
(* Recorded query protocol (src/evaluations.rs) between one server and any *)
(* number of clients. The specification knows the clients' secrets and the *)
(* database. State: the server's shape and records, the clients, the       *)
(* queries in flight, and every mask seen so far.                          *)
(***************************************************************************)
EXTENDS Bfv, TraceBase
VARIABLES P, sh, db, cl, qs, masks
svars == <<P, sh, db, cl, qs, masks>>
Ok(name) == IsEvent(name) /\ Returned(Ev)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]

Server == /\ Ok("server")
          /\ P' = [n |-> Ev.n, t |-> Ev.t, ms |-> Ev.ms, var |-> Ev.var]
          /\ sh' = [first |-> Ev.first, dim |-> Ev.dim, k |-> Ev.k]
          /\ IsBasis(Ev.ms)
          /\ Len(Ev.db) = Ev.first * Power(Ev.dim, Ev.k)
          /\ \A i \in 1..Len(Ev.db) : IsPoly(Ev.db[i], Ev.n, Ev.t)
          /\ Ev.count = Ev.first + Ev.k * Ev.dim       \* selection bits a query carries
          /\ db' = Ev.db /\ cl' = [c \in {} |-> 0] /\ qs' = [q \in {} |-> 0] /\ masks' = {}
Client == /\ Ok("client") /\ Len(Ev.s) = P.n /\ SecretMax(Ev.s) <= 2 * P.var
          /\ \A c \in DOMAIN cl : cl[c] # Ev.s            \* a key of its own
          /\ cl' = Put(cl, Ev.c, Ev.s)
          /\ UNCHANGED <<P, sh, db, qs, masks>>

(* what the server receives: one encryption of all selection bits, then    *)
(* for every gadget element an encryption of its multiples of the bits of  *)
(* the further dimensions. Its shape is the same for every position.       *)
Bit(b) == IF b THEN <<1>> ELSE <<>>
OneHot(pos) == [i \in 1..(sh.first + sh.k * sh.dim) |->
                  IF i <= sh.first THEN Bit(pos[1] = i - 1)
                  ELSE LET j == (i - sh.first - 1) \div sh.dim IN Bit(pos[j + 2] = (i - sh.first - 1) % sh.dim)]
Pad(v) == [i \in 1..P.n |-> IF i <= Len(v) THEN v[i] ELSE <<>>]
IsPos(pos) == /\ Len(pos) = sh.k + 1 /\ pos[1] \in 0..(sh.first - 1)
              /\ \A i \in 2..Len(pos) : pos[i] \in 0..(sh.dim - 1)
Q0 == QAt(P, 0)
Shape2(c) == c.lv = 0 /\ Len(c.parts) = 2 /\ \A i \in 1..2 : IsRows(c.parts[i], P.n, P.ms)
Lifted(c) == [i \in 1..Len(c.parts) |-> PLift(c.parts[i], P.ms)]
Gadget(i) == BMul(Star(P.ms, i), Tilde(P.ms, i))
\* after h shifts
QueryBound(h) == BAdd(FreshBound(P), BMul(BOf(h), EncodeBound(P)))
Query == /\ Ok("query") /\ IsPos(Ev.pos)
         /\ Ev.vec = OneHot(Ev.pos)
         /\ Len(Ev.cts) = Len(P.ms) + 1
         /\ \A i \in 1..Len(Ev.cts) : Shape2(Ev.cts[i])
         /\ LET s == cl[Ev.c]
                bits == SubSeq(Ev.vec, sh.first + 1, Len(Ev.vec))
                ph(i) == Phase(Lifted(Ev.cts[i]), s, Q0)
                new == {Ev.cts[i].parts[2] : i \in 1..Len(Ev.cts)}
            IN  /\ BLe(Noise(P, 0, ph(1), Pad(Ev.vec)), FreshBound(P))
                /\ \A i \in 1..Len(P.ms) :
                      BLe(PNorm(PSub(ph(i + 1), PScale(Pad(bits), Gadget(i), Q0), Q0), Q0), ErrB(P))
                \* no mask of any query ever repeats
                /\ new \cap masks = {}
                /\ \A i, j \in 1..Len(Ev.cts) : i # j => Ev.cts[i].parts[2] # Ev.cts[j].parts[2]
                /\ masks' = masks \cup new
         /\ qs' = Put(qs, Ev.q, [c |-> Ev.c, pos |-> Ev.pos, h |-> 0])
         /\ UNCHANGED <<P, sh, db, cl>>

(* a query derived from an older one: the differences of the selection bits*)
(* are added, the masks stay                                               *)
Shift == /\ Ok("shift") /\ IsPos(Ev.pos)
         /\ Ev.vec = OneHot(Ev.pos)
         /\ Len(Ev.cts) = Len(P.ms) + 1
         /\ \A i \in 1..Len(Ev.cts) : Shape2(Ev.cts[i])
         /\ LET s == cl[qs[Ev.of].c]
                bits == SubSeq(Ev.vec, sh.first + 1, Len(Ev.vec))
                ph(i) == Phase(Lifted(Ev.cts[i]), s, Q0)
            IN  /\ BLe(Noise(P, 0, ph(1), Pad(Ev.vec)), QueryBound(qs[Ev.of].h + 1))
                /\ \A i \in 1..Len(P.ms) :
                      BLe(PNorm(PSub(ph(i + 1), PScale(Pad(bits), Gadget(i), Q0), Q0), Q0), ErrB(P))
                /\ {Ev.cts[i].parts[2] : i \in 1..Len(Ev.cts)} \subseteq masks
         /\ qs' = Put(qs, Ev.q, [c |-> qs[Ev.of].c, pos |-> Ev.pos, h |-> qs[Ev.of].h + 1])
         /\ UNCHANGED <<P, sh, db, cl, masks>>
(* a client makes a new evaluation key for the same secret *)
Rekey == Ok("rekey") /\ Ev.c \in DOMAIN cl /\ UNCHANGED svars
(* an answer made with a foreign evaluation key means nothing, and changes *)
(* nothing                                                                 *)
Mixed == Ok("mixed") /\ Len(Ev.cts) = 1 /\ Shape2(Ev.cts[1]) /\ UNCHANGED svars
(* a query of the wrong form is somebody else's business (see Refusal.tla):*)
(* here it changes nothing                                                 *)
Bad == IsEvent("bad") /\ Ev.q \in DOMAIN qs /\ UNCHANGED svars
(* the server expands one ciphertext of a query. With the key of the client*)
(* that asked, every leaf holds the selection bit (or the multiple of the  *)
(* gadget element) of its index.                                           *)
LeafOf(q, i, k) == LET v == OneHot(q.pos)
                       bit == IF i = 0 THEN (IF k + 1 <= Len(v) THEN v[k + 1] ELSE <<>>)
                              ELSE (IF sh.first + k + 1 <= Len(v) THEN v[sh.first + k + 1] ELSE <<>>)
                   IN  PConst(bit, P.n)
Unpack == /\ Ok("unpack") /\ UNCHANGED svars /\ Ev.len = P.n /\ Len(Ev.leaves) = Len(Ev.idx)
          /\ \A k \in 1..Len(Ev.leaves) : Shape2(Ev.leaves[k])
          /\ Ev.own = (qs[Ev.q].c = Ev.c)
          /\ (Ev.own => LET q == qs[Ev.q]  s == cl[q.c]
                            expand == BMul(BOf(P.n - 1), SwitchBound(P, 0, ErrB(P)))
                        IN  \A k \in 1..Len(Ev.leaves) :
                              LET ph == Phase(Lifted(Ev.leaves[k]), s, Q0)  want == LeafOf(q, Ev.i, Ev.idx[k])
                              IN  IF Ev.i = 0 THEN BLe(Noise(P, 0, ph, want), BAdd(QueryBound(q.h), BMul(P.t, expand)))
                                  ELSE BLe(PNorm(PSub(ph, PScale(want, Gadget(Ev.i), Q0), Q0), Q0), BAdd(ErrB(P), expand)))
(* the record a position addresses *)
RECURSIVE IndexFrom(_, _)
IndexFrom(pos, i) == IF i > Len(pos) THEN 0 ELSE pos[i] + sh.dim * IndexFrom(pos, i + 1)
Index(pos) == pos[1] + sh.first * IndexFrom(pos, 2)
(* noise of an answer (units of 1/t): expansion, first dimension as inner  *)
(* product with records, then one external product per further dimension   *)
(* with keys assembled from expanded gadget encryptions                    *)
KS(err) == SwitchBound(P, 0, err)
AnswerBound(s, h) ==
    LET expand == BMul(BOf(P.n - 1), KS(ErrB(P)))
        leaf == BAdd(QueryBound(h), BMul(P.t, expand))
        first == BMul(BMul(BOf(sh.first * P.n), P.t), leaf)
        e1 == BAdd(ErrB(P), expand)
        e0 == BAdd(BMul(BOf(P.n * MaxI(1, SecretMax(s))), e1), BMul(<<2>>, KS(ErrB(P))))
        step == BMul(BOf(sh.dim * sh.k), BMul(P.t, BAdd(KS(e0), KS(e1))))
    IN  BAdd(first, step)
Answer == /\ Ok("answer") /\ UNCHANGED svars
          /\ Len(Ev.cts) = 1 /\ Shape2(Ev.cts[1])
          /\ LET q == qs[Ev.q]  s == cl[q.c]
                 want == db[Index(q.pos) + 1]
                 ph == Phase(Lifted(Ev.cts[1]), s, Q0)
                 b == AnswerBound(s, q.h)
             IN  /\ InBudget(P, 0, b)           \* of the parameters chosen by the harness
                 /\ BLe(Noise(P, 0, ph, want), b)
                 /\ Ev.m = want
(* very many queries: everybody gets the record they ask for *)
Crowd == /\ Ok("crowd") /\ UNCHANGED svars /\ Len(Ev.got) = Len(Ev.pos)
         /\ \A i \in 1..Len(Ev.pos) : \A pos \in {[j \in 1..Len(Ev.pos[i]) |-> BToInt(Ev.pos[i][j])]} :
                IsPos(pos) /\ Ev.got[i] = db[Index(pos) + 1]
Init == l = 1 /\ P = <<>> /\ sh = <<>> /\ db = <<>> /\ cl = <<>> /\ qs = <<>> /\ masks = {}
Next == Server \/ Client \/ Query \/ Shift \/ Rekey \/ Mixed \/ Bad \/ Unpack \/ Answer \/ Crowd \/ (Finished /\ UNCHANGED <<l, svars>>)
View == l
Alias == [l |-> l]
=============================================================================
