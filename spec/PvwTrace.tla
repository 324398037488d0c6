------------------------------ MODULE PvwTrace ------------------------------
(***************************************************************************)
(* Recorded PVW key generation, encryption and decryption (src/pvw.rs).    *)
(* P = [n, ell, m, q, var]; sk: ell rows of n residues; pk: m pairs (a, b).*)
(***************************************************************************)
EXTENDS BigPoly, Stats, TraceBase, FiniteSets
\* where in the recording the parameters with the secrets, and the public
\* key, stand; what earlier ciphertexts of this key stand
VARIABLES ip, ik, seen
svars == <<ip, ik, seen>>
P == Log[ip]
sk == Log[ip].sk
pk == Log[ik]
Ok(name) == IsEvent(name) /\ Returned(Ev)
Vec(v, n) == IsPoly(v, n, P.q)
(* deviation of a pair from S a *)
Dev(a, b, k) == BSubMod(b[k], PDot(sk[k], a, P.q), P.q)
Params == /\ Ok("pvw") /\ ip' = l /\ ik' = 0 /\ seen' = {}
          /\ Len(Ev.sk) = Ev.ell
          /\ \A k \in 1..Ev.ell : IsPoly(Ev.sk[k], Ev.n, Ev.q)
          /\ (Ev.generated /\ Ev.n >= 8 /\ BBits(Ev.q) > 20 =>     \* full range and all different
                 Cardinality({Ev.sk[k][i] : k \in 1..Ev.ell, i \in 1..Ev.n}) > (Ev.ell * Ev.n * 9) \div 10)
(* a generated public key, or one made by hand (error rows only: its a is  *)
(* the identity)                                                           *)
PubKey == /\ Ok("pk") /\ Len(Ev.b) = P.m
          /\ \A i \in 1..P.m : Vec(Ev.b[i], P.ell)
          /\ (Ev.generated =>
                /\ Len(Ev.a) = P.m /\ \A i \in 1..P.m : Vec(Ev.a[i], P.n)
                /\ (P.n >= 8 /\ BBits(P.q) > 12 => Cardinality({Ev.a[i] : i \in 1..P.m}) = P.m)
                /\ \E devs \in {[i \in 1..P.m |-> SmallInts([k \in 1..P.ell |-> Dev(Ev.a[i], Ev.b[i], k)], P.q, 2 * P.var)]} :
                      \* the errors are those of the sampler, not all alike
                      LET all == Cat(devs)
                      IN  /\ Len(all) = P.m * P.ell
                          /\ (P.m * P.ell >= 400 => CbdOk(all, P.var)))
          /\ ik' = l /\ UNCHANGED <<ip, seen>>
BigKey == Ok("bigpk") /\ ik' = l /\ UNCHANGED <<ip, seen>>      \* a key too large to record
Quarter == BDiv(P.q, <<4>>)
HalfQ == BDiv(P.q, <<2>>)
(* encryption of the bits Ev.m: a subset sum of the key rows plus q/2 per  *)
(* set bit. "unit" keys have a = identity, so that the ciphertext shows    *)
(* the subset; with few rows it is found by trying all.                    *)
IsBit(x) == x \in {<<>>, <<1>>}
Plus(v, m) == [k \in 1..P.ell |-> BAddMod(v[k], BMul(HalfQ, m[k]), P.q)]
IsSumB(sel) == Ev.b = Plus(PSelect(pk.b, sel, P.ell, P.q), Ev.m)
IsSum(sel) == Ev.a = PSelect(pk.a, sel, P.n, P.q) /\ IsSumB(sel)
New == \A j \in seen : Log[j].a /= Ev.a
DevOf(k) == BSubMod(Dev(Ev.a, Ev.b, k), BMul(HalfQ, Ev.m[k]), P.q)
Encrypt == /\ Ok("enc") /\ Len(Ev.m) = P.ell /\ \A k \in 1..P.ell : IsBit(Ev.m[k])
           /\ Vec(Ev.a, P.n) /\ Vec(Ev.b, P.ell)
           /\ CASE Ev.kind = "unit" ->
                     /\ \A i \in 1..P.m : IsBit(Ev.a[i])
                     /\ IsSumB([i \in 1..P.m |-> IF Ev.a[i] = <<1>> THEN 1 ELSE 0])
                     \* half of the rows, never the same ones
                     /\ (P.m >= 64 => Within8(Cardinality({i \in 1..P.m : Ev.a[i] = <<1>>}), P.m \div 2, BOf(P.m \div 4 + 4)) /\ New)
                [] Ev.kind = "small" -> \E sel \in [1..P.m -> 0..1] : IsSum(sel)
                [] Ev.kind = "generated" -> /\ \A k \in 1..P.ell : BLe(BAbs(DevOf(k), P.q), BOf(2 * P.m * P.var))
                                            /\ (P.m >= 40 => New)
                [] Ev.kind = "big" ->     \* default sized: 20 standard deviations
                     /\ \A k \in 1..P.ell : LET d == BAbs(DevOf(k), P.q) IN BLe(BMul(d, d), BMul(<<400>>, BOf(P.m * P.var)))
                     /\ New
           /\ seen' = seen \cup {l} /\ UNCHANGED <<ip, ik>>
(* decryption: determined when the deviation is below the integer quarter  *)
Decrypt == /\ Ok("dec") /\ UNCHANGED svars
           /\ Len(Ev.m) = P.ell
           /\ \A k \in 1..P.ell :
                LET v == Dev(Ev.a, Ev.b, k) IN
                /\ IsBit(Ev.m[k])
                /\ (BLt(BAbs(v, P.q), Quarter) => Ev.m[k] = <<>>)
                /\ (BLt(BAbs(BSubMod(v, HalfQ, P.q), P.q), Quarter) => Ev.m[k] = <<1>>)
(* and of what was encrypted, with worst-case error in range *)
RoundTrip == /\ Ok("trip") /\ UNCHANGED svars /\ Ev.back = Ev.m
Init == l = 1 /\ ip = 0 /\ ik = 0 /\ seen = {}
Next == Params \/ PubKey \/ BigKey \/ Encrypt \/ Decrypt \/ RoundTrip \/ (Finished /\ UNCHANGED <<l, svars>>)
View == l
Alias == [l |-> l]
=============================================================================
