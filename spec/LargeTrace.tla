---------------------------- MODULE LargeTrace ----------------------------
(***************************************************************************)
(* Programs over ciphertexts in rings of the degrees used in practice      *)
(* (1024 to 32768), where following every coefficient would cost too much. *)
(* Messages are sparse: a function from the exponents with a coefficient   *)
(* that is not zero to that coefficient. The ciphertexts themselves are as *)
(* dense as ever; what is recorded of a result is its level, its number of *)
(* parts, every coefficient of its decryption that is not zero and the     *)
(* noise the key holder measures. The specification knows the message a    *)
(* result must encrypt and a bound for its noise (Bfv.tla) and requires    *)
(* the budget to suffice, so that a wrong coefficient anywhere is seen.    *)
(***************************************************************************)
EXTENDS Bfv, TraceBase, FiniteSets
VARIABLES P, reg
svars == <<P, reg>>

Ok(name) == IsEvent(name) /\ Returned(Ev)

(* arithmetic modulo t < 2^20 with 31-bit integers *)
MulT(a, b, t) == (((((a * (b \div 1024)) % t) * 1024) % t) + ((a * (b % 1024)) % t)) % t
Pos(i, k, n) == (((((i * (k \div 256)) % (2 * n)) * 256) % (2 * n)) + (i * (k % 256))) % (2 * n)    \* i * k mod 2n

(* sparse polynomials: recorded as pairs in increasing order of exponents *)
IsSparse(v) == /\ \A i \in 1..Len(v) : v[i][1] \in 0..(P.n - 1) /\ v[i][2] \in 1..(P.t - 1)
               /\ \A i \in 1..(Len(v) - 1) : v[i][1] < v[i + 1][1]
Fn(v) == [e \in {v[i][1] : i \in 1..Len(v)} |-> v[CHOOSE i \in 1..Len(v) : v[i][1] = e][2]]
At(f, e) == IF e \in DOMAIN f THEN f[e] ELSE 0
Trim(f) == [e \in {x \in DOMAIN f : f[x] # 0} |-> f[e]]
Plus(f, g) == Trim([e \in DOMAIN f \cup DOMAIN g |-> (At(f, e) + At(g, e)) % P.t])
Minus(f, g) == Trim([e \in DOMAIN f \cup DOMAIN g |-> (At(f, e) + P.t - At(g, e)) % P.t])
RECURSIVE SumOver(_, _, _, _)
(* coefficient e of f * g modulo X^n + 1, over the exponents in D *)
SumOver(f, g, e, D) ==
    IF D = {} THEN 0
    ELSE LET i == CHOOSE x \in D : TRUE
             j == IF e >= i THEN e - i ELSE e + P.n - i
             v == IF j \notin DOMAIN g THEN 0
                  ELSE LET x == MulT(f[i], g[j], P.t) IN IF e >= i THEN x ELSE (P.t - x) % P.t
         IN  (v + SumOver(f, g, e, D \ {i})) % P.t
Times(f, g) == Trim([e \in {(i + j) % P.n : i \in DOMAIN f, j \in DOMAIN g} |-> SumOver(f, g, e, DOMAIN f)])
Subst(f, k) == LET to == [i \in DOMAIN f |-> Pos(i, k, P.n)]
               IN  [e \in {to[i] % P.n : i \in DOMAIN f} |->
                      LET i == CHOOSE x \in DOMAIN f : to[x] % P.n = e
                      IN  IF to[i] < P.n THEN f[i] ELSE P.t - f[i]]
T == BOf(P.t)
PP == [n |-> P.n, t |-> T, ms |-> P.ms, var |-> P.var]
Norm1(f) == SumSeq([i \in 1..Cardinality(DOMAIN f) |-> T])           \* coefficients are below t
Key(lv) == SwitchBound(PP, lv, ErrB(PP))
Secret == <<2 * P.var>>                                               \* largest coefficient of any secret

A == reg[Ev.a]
B == reg[Ev.b]
(* register Ev.d gets message m with noise at most b *)
Becomes(lv, parts, m, b) ==
    /\ Ev.lv = lv /\ Ev.parts = parts
    /\ InBudget(PP, lv, b)
    /\ IsSparse(Ev.back) /\ Fn(Ev.back) = m
    /\ Ev.bits <= BBits(BAdd(BDiv(b, T), <<3>>))
    /\ reg' = [r \in (DOMAIN reg) \cup {Ev.d} |-> IF r = Ev.d THEN [lv |-> lv, k |-> parts, m |-> m, b |-> b] ELSE reg[r]]
    /\ UNCHANGED P

Start == /\ Ok("start") /\ IsBasis(Ev.ms) /\ BIsPrime(BOf(Ev.t)) /\ Ev.t < 1048576
         /\ P' = [n |-> Ev.n, t |-> Ev.t, ms |-> Ev.ms, var |-> Ev.var] /\ reg' = <<>>
Enc == /\ Ok("enc") /\ IsSparse(Ev.m)
       /\ Becomes(Ev.lv, 2, Fn(Ev.m), FreshBound(PP))
Add == /\ Ok("add") /\ A.lv = B.lv /\ A.k = B.k
       /\ Becomes(A.lv, A.k, Plus(A.m, B.m), BAdd(A.b, B.b))
Sub == /\ Ok("sub") /\ A.lv = B.lv /\ A.k = B.k
       /\ Becomes(A.lv, A.k, Minus(A.m, B.m), BAdd(A.b, B.b))
AddPt == /\ Ok("addpt") /\ IsSparse(Ev.m)
         /\ Becomes(A.lv, A.k, Plus(A.m, Fn(Ev.m)), BAdd(A.b, EncodeBound(PP)))
MulPt == /\ Ok("mulpt") /\ IsSparse(Ev.m)
         /\ Becomes(A.lv, A.k, Times(A.m, Fn(Ev.m)), BMul(A.b, Norm1(Fn(Ev.m))))
MulBig == /\ Ok("mulbig") /\ Ev.c \in 0..(P.t - 1)
          /\ Becomes(A.lv, A.k, Trim([e \in DOMAIN A.m |-> MulT(A.m[e], Ev.c, P.t)]), BMul(A.b, BOf(Ev.c)))
Mul == /\ Ok("mul") /\ A.lv = B.lv
       /\ Becomes(A.lv, A.k + B.k - 1, Times(A.m, B.m), MulBound(PP, A.lv, Secret, A.k, A.b, B.k, B.b))
MulRelin == /\ Ok("mulrelin") /\ A.lv = B.lv /\ A.k = 2 /\ B.k = 2
            /\ Becomes(A.lv, 2, Times(A.m, B.m), BAdd(MulBound(PP, A.lv, Secret, 2, A.b, 2, B.b), BMul(T, Key(A.lv))))
Relin == /\ Ok("relin") /\ A.k = 3
         /\ Becomes(A.lv, 2, A.m, BAdd(A.b, BMul(T, Key(A.lv))))
Galois == /\ Ok("galois") /\ A.k = 2 /\ Ev.x % 2 = 1 /\ Ev.x \in 1..(2 * P.n)
          /\ Becomes(A.lv, 2, Subst(A.m, Ev.x), BAdd(A.b, BMul(T, Key(A.lv))))
External == /\ Ok("external") /\ A.k = 2 /\ IsSparse(Ev.m)
            /\ Becomes(A.lv, 2, Times(A.m, Fn(Ev.m)), BAdd(BMul(A.b, Norm1(Fn(Ev.m))), BMul(BMul(<<2>>, T), Key(A.lv))))
(* slots: dense, products and sums slot by slot *)
Slots == /\ Ok("slots") /\ UNCHANGED svars
         /\ Len(Ev.v) = P.n /\ Len(Ev.w) = P.n /\ Len(Ev.sum) = P.n /\ Len(Ev.prod) = P.n /\ Ev.back = Ev.v
         /\ \A t \in {P.t} : \A i \in 1..Len(Ev.v) : /\ Ev.v[i] \in 0..(t - 1) /\ Ev.w[i] \in 0..(t - 1)
                                                    /\ Ev.sum[i] = (Ev.v[i] + Ev.w[i]) % t
                                                    /\ Ev.prod[i] = MulT(Ev.v[i], Ev.w[i], t)

Init == l = 1 /\ P = <<>> /\ reg = <<>>
Next == \/ Start \/ Enc \/ Add \/ Sub \/ AddPt \/ MulPt \/ MulBig \/ Mul \/ MulRelin \/ Relin
        \/ Galois \/ External \/ Slots
        \/ Finished /\ UNCHANGED <<l, svars>>
View == l
Alias == [l |-> l]
=============================================================================
