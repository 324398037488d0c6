------------------------------ MODULE Refusal ------------------------------
(***************************************************************************)
(* Which operands every operation accepts. A case is an operation and a    *)
(* tuple of small numbers describing its operands; Cases is the matrix of  *)
(* all of them, Pre the precondition as a predicate on the operands'       *)
(* parameter sets, levels, contexts, representations, numbers of parts,    *)
(* counts and domains. Outside of it the operation must refuse (panic, or  *)
(* return None where its type says so), inside it must not.                *)
(*                                                                         *)
(* Type gives, for the operations on ciphertexts and keys, what they do in *)
(* terms of polynomials: every sum and product of polynomials needs equal  *)
(* contexts and NTT form, every decomposition power basis. Checked: Pre    *)
(* implies that the operation is well typed (Typed), so a precondition     *)
(* that lets through a mismatched pair of polynomials is found here; the   *)
(* shape of the result (level, parts) is part of what the recordings are   *)
(* compared with. The harness runs every case on the code                  *)
(* (refusalsuite.rs), RefusalTrace.tla decides its outcome.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* parameter sets; moduli are names of primes, 1 and 2 describe equal sets *)
P == [i \in 1..11 |->
       LET b == [deg |-> 8, t |-> 97, var |-> 10, dec |-> 4, q |-> <<1, 2, 3>>]
       IN  CASE i = 1 -> b
             [] i = 2 -> b                              \* built again
             [] i = 3 -> [b EXCEPT !.var = 9]
             [] i = 4 -> [b EXCEPT !.t = 193]
             [] i = 5 -> [b EXCEPT !.q = <<1, 2, 4>>]
             [] i = 6 -> [b EXCEPT !.deg = 16]
             [] i = 7 -> [b EXCEPT !.dec = 5]
             [] i = 8 -> [b EXCEPT !.q = <<1, 2>>]
             [] i = 9 -> [b EXCEPT !.q = <<1>>]
             [] i = 10 -> [b EXCEPT !.q = <<2, 1, 3>>]
             [] i = 11 -> [b EXCEPT !.q = <<1, 2, 3, 4>>]]
Ids == 1..11
Levels(p) == 0..(Len(P[p].q) - 1)
Ctx(p, l) == [deg |-> P[p].deg, dec |-> P[p].dec, q |-> SubSeq(P[p].q, 1, Len(P[p].q) - l)]
CtxLevel(p, c) == {l \in Levels(p) : Ctx(p, l) = c}
(* representations *)
N == 1
W == 0
Same(p, r) == P[p] = P[r]

(***************************************************************************)
(* operands                                                                *)
(***************************************************************************)
Pairs == {<<1, i>> : i \in Ids} \cup {<<i, 1>> : i \in Ids}
CtsOf(p, ks, rs) == {<<p, l, k, r>> : l \in Levels(p), k \in ks, r \in rs}
PolysOf(p, rs) == {<<p, l, r>> : l \in Levels(p), r \in rs}
PtsOf(p) == {<<p, l>> : l \in Levels(p)}

CtCt(op) == UNION {{<<op>> \o a \o b : a \in CtsOf(x[1], 1..3, {N}), b \in CtsOf(x[2], {1, 2}, {N, W})} : x \in Pairs}
CtPoly(op) == UNION {{<<op>> \o a \o b : a \in CtsOf(x[1], 1..3, {N, W}), b \in PolysOf(x[2], {N, W})} : x \in Pairs}
CtPt(op) == UNION {{<<op>> \o a \o b : a \in CtsOf(x[1], 1..3, {N, W}), b \in PtsOf(x[2])} : x \in Pairs}
KeyPoly(op, rs) == UNION {{<<op, x[1]>> \o b : b \in PolysOf(x[2], rs)} : x \in Pairs}
KeyPt(op) == UNION {{<<op, x[1]>> \o b : b \in PtsOf(x[2])} : x \in Pairs}
KeyCt(op, ks, rs) == UNION {{<<op, x[1]>> \o b : b \in CtsOf(x[2], ks, rs)} : x \in Pairs}
LKeyCt(op, ks, rs) == UNION {{<<op, x[1], kl>> \o b : kl \in Levels(x[1]), b \in CtsOf(x[2], ks, rs)} : x \in Pairs}
LKeyPoly(op, rs) == UNION {{<<op, x[1], kl>> \o b : kl \in Levels(x[1]), b \in PolysOf(x[2], rs)} : x \in Pairs}

Homs == CtCt("add") \cup CtCt("sub") \cup CtCt("mul")
        \cup CtPoly("addpoly") \cup CtPoly("mulpoly") \cup CtPt("mulpt")
        \cup {<<"mulbig">> \o a : a \in CtsOf(1, 1..3, {N, W})}
        \* inner product of n ciphertexts and m polynomials, the last of each another one
        \cup UNION {{<<"inner", n, m>> \o a \o b : n \in 0..3, m \in 0..3, a \in CtsOf(x[1], {2}, {N}), b \in PolysOf(x[2], {N, W})}
                    : x \in {<<1, 1>>, <<1, 2>>, <<1, 5>>, <<3, 3>>, <<4, 4>>, <<5, 5>>, <<5, 1>>, <<6, 6>>, <<8, 8>>}}
        \* product and relinearization with a key
        \cup UNION {{<<"mulrlk">> \o a \o b \o <<x[3], kl>> : a \in CtsOf(x[1], {2, 3}, {N}), b \in CtsOf(x[2], {1, 2}, {N}), kl \in Levels(x[3])}
                    : x \in {<<1, i, 1>> : i \in Ids} \cup {<<1, 1, i>> : i \in Ids}}
Crypt == KeyPt("encrypt") \cup KeyPoly("encpoly", {N, W})
         \cup KeyCt("decrypt", 1..3, {N}) \cup KeyCt("decrypt", {2, 3}, {W}) \cup KeyCt("noise", 1..3, {N})
         \cup {<<"encrypt", 1, 1, l>> : l \in 3..4}
         \cup UNION {{<<"trial", x[1]>> \o a \o b : a \in PolysOf(x[2], {N, W}), b \in PolysOf(x[3], {N})}
                     : x \in {<<1, i, i>> : i \in Ids} \cup {<<1, 1, i>> : i \in Ids} \cup {<<6, 1, 1>>, <<8, 1, 1>>}}
Keys == {<<"galkey", p, l, d, k>> : p \in Ids, l \in 0..4, d \in {8, 16}, k \in {3, 5, 15, 31}}
        \cup LKeyCt("galois", 1..3, {N, W}) \cup LKeyPoly("rlk", {N, W}) \cup LKeyCt("ext", 1..3, {N})
        \cup UNION {{<<"ksknew", x[1]>> \o b \o <<cl, kl>> : b \in PolysOf(x[2], {N, W}), cl \in 0..3, kl \in 0..3} : x \in Pairs}
        \cup UNION {{<<"kskpt", x[1]>> \o b \o <<cl, kl>> : b \in PtsOf(x[2]), cl \in 0..3, kl \in 0..3} : x \in Pairs}
        \cup UNION {{<<"keyswitch", x[1], cl, kl>> \o b : cl \in Levels(x[1]), kl \in Levels(x[1]), b \in PolysOf(x[2], {N, W})} : x \in Pairs}
        \cup KeyPoly("rgswpoly", {N, W}) \cup KeyPt("rgswpt")
        \* n ciphertexts of parameters p at level l, the last one another
        \cup UNION {{<<"fromrlwes", x[1], n, l>> \o b : n \in 0..4, l \in Levels(x[1]), b \in CtsOf(x[2], 1..3, {N})} : x \in Pairs}
        \cup UNION {{<<"fromksks", x[1], a, b, x[2], c, d>> : a \in Levels(x[1]), b \in Levels(x[1]), c \in Levels(x[2]), d \in Levels(x[2])} : x \in Pairs}
Pow(a, b) == a ^ b
Protocol ==
    UNION {{<<"unpack", x[1]>> \o b : b \in CtsOf(x[2], 1..3, {N, W})} : x \in {y \in Pairs : Len(P[y[1]].q) > 1}}
    \* evaluation keys of e, parameter argument a, n queries, one of them another ciphertext
    \cup {<<"decode", e, a, n, at>> \o b : e \in {1, 2, 3, 4}, a \in {1, 3, 5, 8}, n \in {0, 3, 4, 5}, at \in {1, 4},
                                          b \in {<<1, 0, 2, 1>>, <<2, 0, 2, 1>>, <<1, 1, 2, 1>>, <<1, 0, 3, 1>>, <<1, 0, 1, 1>>, <<1, 0, 2, 0>>,
                                                 <<3, 0, 2, 1>>, <<4, 0, 2, 1>>, <<5, 0, 2, 1>>, <<8, 0, 2, 1>>}}
    \* first, dim, number of records, position
    \cup UNION {{<<"encode", x[1], x[2], r>> \o p :
                      r \in {x[1], x[1] * x[2], x[1] * x[2] * x[2], x[1] * x[2] * x[2] * x[2], 1, x[1] * x[2] - 1, 3 * x[1] * x[2]},
                      p \in {<<a>> : a \in {0, x[1] - 1, x[1], x[1] + 1, 100}}
                            \cup {<<a, b>> : a \in {0, x[1] - 1, x[1]}, b \in {0, x[2] - 1, x[2], x[2] + 1}}
                            \cup {<<a, b, c>> : a \in {0, x[1] - 1, x[1]}, b \in {0, x[2] - 1, x[2]}, c \in {0, x[2] - 1, x[2], 99}}}
                : x \in {<<4, 2>>, <<4, 4>>, <<2, 3>>, <<3, 5>>}}
Rings == {<<"subst", d, k>> : d \in {8, 16, 32}, k \in 0..70}
         \cup {<<"substapply", d1, d2, r>> : d1 \in {8, 16, 32}, d2 \in {8, 16, 32}, r \in {N, W}}
         \cup {<<"ntt", p, n>> : p \in {17, 33, 65, 97, 193, 257, 545, 769, 4097, 12289, 65537, 1048577}, n \in (0..34) \cup {48, 64, 96, 128, 256, 512, 1024, 2048, 4096, 32768, 65536}}
         \cup {<<"nttlen", n, m>> : n \in {8, 16, 32}, m \in {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64}}
         \cup {<<"modulus", e, d>> : e \in {3, 10, 20, 31, 32, 33, 60, 61, 62, 63}, d \in {-1, 0, 1}}
         \cup {<<"factor", a, b>> : a \in 0..3, b \in 0..3}
         \cup {<<"scaler", p, l, r, m>> : p \in {1, 5, 6, 8}, l \in 0..1, r \in {1, 4, 6, 7, 9}, m \in {0}}
         \cup {<<"scale", p, l, r, m, w>> : p \in {1, 2, 8}, l \in {0, 1}, r \in {1, 3, 5, 6, 7, 8, 10}, m \in {0, 1}, w \in {N, W}}
         \cup UNION {{<<"down">> \o b : b \in PolysOf(p, {N, W})} : p \in {1, 6, 9, 11}}
         \cup UNION {{<<"switchto">> \o a \o b : a \in PolysOf(x[1], {N, W}), b \in PtsOf(x[2])} : x \in Pairs}
         \cup UNION {{<<"inverse">> \o b : b \in PolysOf(p, {N, W})} : p \in {1, 9}}
         \cup UNION {{<<"tou64">> \o b : b \in PolysOf(p, {N, W})} : p \in {1, 8, 9}}
         \cup UNION {{<<"rep">> \o b \o <<to>> : b \in PolysOf(p, {N, W}), to \in 0..2} : p \in {1}}
Domains == {<<"cbd", v, n>> : v \in (0..20) \cup {32, 33, 64}, n \in {1, 8}}
           \cup {<<"keygen", v>> : v \in {0, 1, 2, 10, 16, 17, 20}}
           \cup {<<"prime", b, m>> : b \in (0..64), m \in {16, 32, 64}}
           \cup {<<"moduli", a, b>> : a \in {0, 5, 9, 10, 11, 20, 61, 62, 63, 64}, b \in {0, 9, 10, 20, 40, 62, 63}}
           \cup {<<"divceil", a, b>> : a \in 0..3, b \in 0..3}
           \cup {<<"ptnew", 1, n, l, e>> : n \in {0, 1, 7, 8, 9, 16}, l \in 0..2, e \in {0, 2}} \cup {<<"ptnew", 1, 8, l, 1>> : l \in 0..2}
           \cup {<<"ptdecode", e>> : e \in 0..2}
           \* parameters: degree, plaintext modulus, first ciphertext modulus (0 is a good one)
           \cup {<<"params", d, t, q>> : d \in {1, 2, 4, 6, 8, 12, 16, 24, 32, 64}, t \in {17, 33, 65, 97, 193, 257}, q \in {0, 1, 97, 193, 225, 257, 481, 545, 641}}
(* Left open: a number of records that is no multiple of the hypercube's   *)
(* faces but rounds to it, and plaintext moduli above a ciphertext modulus *)
Open(c) == IF c[1] = "encode" THEN LET full == c[2] * c[3] ^ (Len(c) - 5)
                                   IN  c[4] # full /\ (c[4] \div c[2]) \div (c[3] ^ (Len(c) - 5)) = 1
           ELSE c[1] = "params" /\ c[4] > 1 /\ c[4] <= c[3]
Cases == Homs \cup Crypt \cup Keys \cup Rings \cup {c \in Protocol \cup Domains : ~Open(c)}

(***************************************************************************)
(* what is accepted                                                        *)
(***************************************************************************)
Prime(n) == n > 1 /\ \A d \in 2..1024 : d * d > n \/ n % d # 0        \* n up to 2^20
PowerOf2(n) == \E k \in 0..20 : n = 2 ^ k
HasNtt(p, n) == PowerOf2(n) /\ n >= 8 /\ p % (2 * n) = 1 /\ Prime(p)
Ct(c, i) == [p |-> c[i], l |-> c[i + 1], k |-> c[i + 2], r |-> c[i + 3]]
Po(c, i) == [ctx |-> Ctx(c[i], c[i + 1]), r |-> c[i + 2]]
SameKind(a, b) == Same(a.p, b.p) /\ a.l = b.l
KskOk(p, ctx, r, cl, kl) == /\ r = N
                            /\ cl \in Levels(p) /\ kl \in Levels(p) /\ kl <= cl
                            /\ ctx = Ctx(p, kl)
Pre(c) ==
    LET o == c[1] IN
    CASE o \in {"add", "sub", "mul"} -> LET a == Ct(c, 2) b == Ct(c, 6) IN SameKind(a, b) /\ a.r = N /\ b.r = N
      [] o \in {"addpoly", "mulpoly"} -> LET a == Ct(c, 2) f == Po(c, 6) IN Ctx(a.p, a.l) = f.ctx /\ a.r = N /\ f.r = N
      [] o = "mulpt" -> LET a == Ct(c, 2) IN Same(a.p, c[6]) /\ a.l = c[7] /\ a.r = N
      [] o = "mulbig" -> Ct(c, 2).r = N
      [] o = "inner" -> LET a == Ct(c, 4) f == Po(c, 8)
                        IN  /\ c[2] = c[3] /\ c[2] >= 1
                            /\ f.r = N /\ a.r = N /\ Ctx(a.p, a.l) = f.ctx
                            /\ c[2] > 1 => SameKind(a, [p |-> 1, l |-> 0])
      [] o = "mulrlk" -> LET a == Ct(c, 2) b == Ct(c, 6)
                         IN  SameKind(a, b) /\ a.k = 2 /\ b.k = 2 /\ Same(a.p, c[10]) /\ c[11] = a.l
      [] o = "encrypt" -> Same(c[2], c[3]) /\ c[4] \in Levels(c[3])
      [] o = "encpoly" -> LET f == Po(c, 3) IN CtxLevel(c[2], f.ctx) # {} /\ f.r = N
      [] o \in {"decrypt", "noise"} -> LET a == Ct(c, 3) IN Same(c[2], a.p) /\ a.r = N
      [] o = "trial" -> LET f == Po(c, 3) g == Po(c, 6) IN f.ctx = g.ctx /\ f.r = N /\ g.r = N /\ CtxLevel(c[2], f.ctx) # {}
      [] o = "galkey" -> c[3] \in Levels(c[2]) /\ Len(P[c[2]].q) > 1 /\ c[4] = P[c[2]].deg
      [] o = "galois" -> LET a == Ct(c, 4) IN Len(P[c[2]].q) > 1 /\ Same(c[2], a.p) /\ c[3] = a.l /\ a.k = 2 /\ a.r = N
      [] o = "rlk" -> Po(c, 4).ctx = Ctx(c[2], c[3])
      [] o = "ext" -> LET a == Ct(c, 4) IN Same(c[2], a.p) /\ c[3] = a.l /\ a.k = 2
      [] o = "ksknew" -> LET f == Po(c, 3) IN KskOk(c[2], f.ctx, f.r, c[6], c[7])
      [] o = "kskpt" -> Same(c[2], c[3]) /\ KskOk(c[2], Ctx(c[3], c[4]), N, c[5], c[6])
      [] o = "keyswitch" -> LET f == Po(c, 5) IN c[4] <= c[3] /\ f.ctx = Ctx(c[2], c[3]) /\ f.r = W
      [] o = "rgswpoly" -> LET f == Po(c, 3) IN f.r = N /\ CtxLevel(c[2], f.ctx) # {}
      [] o = "rgswpt" -> Same(c[2], c[3])
      [] o = "fromrlwes" -> LET a == Ct(c, 5) n == c[3]
                            IN  /\ n >= 1 /\ Same(c[2], a.p) /\ a.k = 2
                                /\ n > 1 => a.l = c[4]
                                /\ n = Len(P[a.p].q) - a.l
      [] o = "fromksks" -> /\ c[4] <= c[3] /\ c[7] <= c[6]
                           /\ Same(c[2], c[5]) /\ c[3] = c[6] /\ c[4] = c[7]
      [] o = "unpack" -> LET a == Ct(c, 3) IN Same(c[2], a.p) /\ a.l = 0 /\ a.k = 2 /\ a.r = N
      [] o = "decode" -> LET a == Ct(c, 6)
                         IN  /\ c[4] = Len(P[c[2]].q) + 1 /\ Same(c[2], c[3]) /\ Same(c[2], 1)
                             /\ Same(a.p, c[2]) /\ a.l = 0 /\ a.k = 2 /\ a.r = N
      [] o = "encode" -> LET p == SubSeq(c, 5, Len(c))
                         IN  /\ p[1] < c[2] /\ \A i \in 2..Len(p) : p[i] < c[3]
                             /\ c[4] = c[2] * Pow(c[3], Len(p) - 1)
      [] o = "subst" -> c[3] % 2 = 1
      [] o = "substapply" -> c[2] = c[3]
      [] o = "ntt" -> HasNtt(c[2], c[3])
      [] o = "nttlen" -> c[2] = c[3]
      [] o = "modulus" -> c[2] < 62 \/ (c[2] = 62 /\ c[3] < 0)
      [] o = "factor" -> c[3] # 0
      [] o = "scaler" -> P[c[2]].deg = P[c[4]].deg
      [] o = "scale" -> Ctx(c[2], c[3]) = Ctx(c[4], c[5])
      [] o = "down" -> Len(Ctx(c[2], c[3]).q) > 1 /\ c[4] = W
      [] o = "switchto" -> LET a == Ctx(c[2], c[3]) b == Ctx(c[5], c[6])
                           IN  \/ a = b
                               \/ c[4] = W /\ \E k \in 1..(Len(a.q) - 1) : [a EXCEPT !.q = SubSeq(a.q, 1, Len(a.q) - k)] = b
      [] o = "inverse" -> c[4] = N
      [] o = "tou64" -> Len(Ctx(c[2], c[3]).q) = 1
      [] o = "rep" -> c[5] < 2
      [] o = "cbd" -> c[2] \in 1..16
      [] o = "keygen" -> c[2] \in 1..16
      [] o = "prime" -> c[2] \in 10..62
      [] o = "moduli" -> c[2] \in 10..62 /\ c[3] \in 10..62
      [] o = "divceil" -> c[3] # 0
      [] o = "ptnew" -> c[3] <= 8 /\ c[5] # 2
      [] o = "ptdecode" -> c[2] # 2
      [] o = "params" -> HasNtt(c[3], c[2]) /\ c[2] >= 8 /\ PowerOf2(c[2]) /\ (c[4] = 0 \/ HasNtt(c[4], c[2]))

(***************************************************************************)
(* what the operations on ciphertexts do with polynomials. A polynomial is *)
(* [ctx, r]; Bad is the result of an ill-typed step.                       *)
(***************************************************************************)
Bad == [ctx |-> <<>>, r |-> -1]
Op(a, b) == IF a # Bad /\ b # Bad /\ a.ctx = b.ctx /\ a.r = N /\ b.r = N THEN a ELSE Bad
Part(a) == [ctx |-> Ctx(a.p, a.l), r |-> a.r]
Parts(a) == [i \in 1..a.k |-> Part(a)]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
ToW(f) == IF f = Bad THEN Bad ELSE [f EXCEPT !.r = W]
(* key switching from the key's ciphertext context into it *)
KsOut(f, ctx) == IF f # Bad /\ f.ctx = ctx /\ f.r = W THEN [ctx |-> ctx, r |-> N] ELSE Bad
Type(c) ==
    LET o == c[1] IN
    CASE o \in {"add", "sub"} -> LET a == Ct(c, 2) b == Ct(c, 6) m == Min(a.k, b.k)
                                 IN  [i \in 1..Max(a.k, b.k) |-> IF i <= m THEN Op(Part(a), Part(b))
                                                                 ELSE IF i <= a.k THEN Part(a) ELSE Part(b)]
      [] o = "mul" -> LET a == Ct(c, 2) b == Ct(c, 6) IN [i \in 1..(a.k + b.k - 1) |-> Op(Part(a), Part(b))]
      [] o = "addpoly" -> LET a == Ct(c, 2) IN [i \in 1..a.k |-> IF i = 1 THEN Op(Part(a), Po(c, 6)) ELSE Part(a)]
      [] o = "mulpoly" -> LET a == Ct(c, 2) IN [i \in 1..a.k |-> Op(Part(a), Po(c, 6))]
      [] o = "mulpt" -> LET a == Ct(c, 2) IN [i \in 1..a.k |-> Op(Part(a), [ctx |-> Ctx(c[6], c[7]), r |-> N])]
      [] o = "mulbig" -> LET a == Ct(c, 2) IN [i \in 1..a.k |-> Op(Part(a), [ctx |-> Ctx(a.p, a.l), r |-> N])]
      [] o = "inner" -> LET a == Ct(c, 4)
                            last == Op(Part(a), Po(c, 8))
                        IN  [i \in 1..2 |-> IF c[2] = 1 THEN last ELSE Op([ctx |-> Ctx(1, 0), r |-> N], last)]
      [] o = "mulrlk" -> LET a == Ct(c, 2) b == Ct(c, 6) f == Op(Part(a), Part(b))
                         IN  [i \in 1..2 |-> Op(f, KsOut(ToW(f), Ctx(c[10], c[11])))]
      [] o = "encrypt" -> [i \in 1..2 |-> [ctx |-> Ctx(c[3], c[4]), r |-> N]]
      [] o = "encpoly" -> [i \in 1..2 |-> Op(Po(c, 3), Po(c, 3))]
      [] o = "galois" -> LET a == Ct(c, 4) IN [i \in 1..2 |-> Op(KsOut(ToW(Part(a)), Ctx(c[2], c[3])), Part(a))]
      [] o = "ext" -> LET a == Ct(c, 4) IN [i \in 1..2 |-> KsOut(ToW(Part(a)), Ctx(c[2], c[3]))]
      [] OTHER -> <<>>
(* the level written on the result *)
Shaped == {"add", "sub", "mul", "addpoly", "mulpoly", "mulpt", "mulbig", "inner", "mulrlk", "encrypt", "encpoly", "galois"}
Level(c) ==
    LET o == c[1] IN
    CASE o \in {"add", "sub", "mul", "addpoly", "mulpoly", "mulpt", "mulbig", "mulrlk"} -> c[3]
      [] o = "inner" -> c[5]
      [] o = "encrypt" -> c[4]
      [] o = "encpoly" -> CHOOSE l \in CtxLevel(c[2], Po(c, 3).ctx) : TRUE
      [] o = "galois" -> c[3]
Owner(c) == IF c[1] = "inner" THEN c[4] ELSE c[2]

(***************************************************************************)
(* The matrix as a state space: one state per case                         *)
(***************************************************************************)
CONSTANT Emit
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Typed == Pre(case) => \A i \in 1..Len(Type(case)) : Type(case)[i] # Bad
(* the level of the result is the level of its polynomials *)
Labelled == Pre(case) /\ case[1] \in Shaped => \A i \in 1..Len(Type(case)) : Type(case)[i].ctx = Ctx(Owner(case), Level(case))
RECURSIVE Words(_, _)
Words(c, i) == IF i > Len(c) THEN "" ELSE " " \o ToString(c[i]) \o Words(c, i + 1)
Printed == ~Emit \/ PrintT(<<"PROG", case[1] \o Words(case, 2)>>)
=============================================================================
