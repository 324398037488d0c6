---------------------------- MODULE ParamsTrace ----------------------------
(***************************************************************************)
(* Recorded parameter generation: prime search, moduli lists, and what a   *)
(* parameter set is made of (src/utils.rs, src/bfv.rs, src/rq.rs).         *)
(***************************************************************************)
EXTENDS Rns, TraceBase, FiniteSets
Ok(name) == IsEvent(name) /\ Returned(Ev)
Two(b) == BPow2(b)
Right(p, b, m) == BBits(p) = b /\ BMod(p, m) = <<1>> /\ BIsPrime(p)
(* every number congruent 1 modulo m strictly between p and u that is not  *)
(* in skip is composite                                                    *)
RECURSIVE NothingFrom(_, _, _, _)
NothingFrom(c, m, u, skip) == IF ~BLt(c, u) THEN TRUE
                              ELSE IF BIsPrime(c) /\ c \notin skip THEN FALSE ELSE NothingFrom(BAdd(c, m), m, u, skip)
(* the least number congruent 1 modulo m that is at least x *)
FirstFrom(x, m) == LET r == BMod(x, m) IN
    IF r = <<1>> THEN x ELSE IF r = <<>> THEN BAdd(x, <<1>>) ELSE BAdd(BSub(BAdd(x, m), r), <<1>>)
NoneLeft(lo, u, m, skip) == NothingFrom(FirstFrom(lo, m), m, u, skip)
(* generate_prime(bits, m, upper): the largest below upper *)
GenPrime == /\ Ok("gen_prime")
            /\ IF Ev.some
               THEN /\ Ev.bits \in 10..62 /\ Right(Ev.r, Ev.bits, Ev.m) /\ BLt(Ev.r, Ev.upper)
                    /\ NoneLeft(BAdd(Ev.r, <<1>>), Ev.upper, Ev.m, {})
               ELSE Ev.bits \notin 10..62 \/ NoneLeft(Two(Ev.bits - 1), Ev.upper, Ev.m, {})
(* generate_moduli(sizes, n): entry after entry the largest not yet taken; *)
(* nothing when there are not enough                                       *)
Taken(r, i) == {r[j] : j \in 1..i}
Count(sizes, b) == Cardinality({i \in 1..Len(sizes) : sizes[i] = b})
RECURSIVE FewerFrom(_, _, _, _)
FewerFrom(c, m, u, k) == IF k = 0 THEN FALSE ELSE IF ~BLt(c, u) THEN TRUE
                         ELSE FewerFrom(BAdd(c, m), m, u, IF BIsPrime(c) THEN k - 1 ELSE k)
FewerThan(k, b, m) == FewerFrom(FirstFrom(Two(b - 1), m), m, Two(b), k)
GenModuli == /\ Ok("gen_moduli")
             /\ LET m == BOf(2 * Ev.n) IN
                IF Ev.some
                THEN /\ Len(Ev.r) = Len(Ev.sizes)
                     /\ \A i \in 1..Len(Ev.r) : /\ Right(Ev.r[i], Ev.sizes[i], m)
                                                /\ Ev.r[i] \notin Taken(Ev.r, i - 1)
                                                /\ NoneLeft(BAdd(Ev.r[i], <<1>>), Two(Ev.sizes[i]), m, Taken(Ev.r, i - 1))
                ELSE \E i \in 1..Len(Ev.sizes) : FewerThan(Count(Ev.sizes, Ev.sizes[i]), Ev.sizes[i], m)
(* a parameter set: one context per level, each the parent without its     *)
(* last modulus; the extension of each level                               *)
Levels == Len(Ev.ms)
MsOf(i) == SubSeq(Ev.ms, 1, Levels - i)
Context(c, ms) ==
    /\ c.ms = ms /\ c.n = Ev.n /\ c.q = Modulus(ms) /\ c.rns = ms
    \* chain of the contexts below
    /\ c.chain = [k \in 1..(Len(ms) - 1) |-> SubSeq(ms, 1, Len(ms) - k)]
    /\ Len(c.inv) = Len(ms) - 1 /\ Len(c.shoup) = Len(ms) - 1
    /\ \A k \in 1..(Len(ms) - 1) :
          /\ BLt(c.inv[k], ms[k])
          /\ BMulMod(c.inv[k], BMod(ms[Len(ms)], ms[k]), ms[k]) = <<1>>
          /\ c.shoup[k] = BDiv(BMul(c.inv[k], Two(64)), ms[k])
    /\ c.ntts = Len(ms)
ExtOf(e, ms) == SubSeq(e.ms, Len(ms) + 1, Len(e.ms))
ParamSet ==
    /\ Ok("params") /\ IsBasis(Ev.ms)
    /\ Ev.kept = [n |-> Ev.n, t |-> Ev.t, ms |-> Ev.ms, var |-> Ev.var]
    /\ Len(Ev.q) = Levels /\ Len(Ev.e) = Levels
    /\ \A i \in 0..(Levels - 1) :
          LET ms == MsOf(i)  q == Ev.q[i + 1]  e == Ev.e[i + 1] IN
          /\ Context(q, ms)
          /\ q.level = i                         \* ctx_level finds it
          /\ q.qmodt = BMod(Modulus(ms), Ev.t)
          \* -1/t at this level
          /\ IsRows(q.delta, Ev.n, ms)
          /\ LET d == PLift(q.delta, ms) IN
             /\ d = PConst(d[1], Ev.n)
             /\ BMulMod(d[1], Ev.t, Modulus(ms)) = BSub(Modulus(ms), <<1>>)
          \* the extension: the level's moduli, then new primes of 62 bits
          /\ SubSeq(e.ms, 1, Len(ms)) = ms /\ e.n = Ev.n /\ e.q = Modulus(e.ms)
          /\ IsBasis(e.ms)
          /\ \A k \in (Len(ms) + 1)..Len(e.ms) : /\ Right(e.ms[k], 62, BOf(2 * Ev.n))
                                                 /\ \A j \in 1..Levels : e.ms[k] # Ev.ms[j]
          \* sums of up to eight products of centered polynomials stay below half of it
          /\ BLt(BMul(BMul(Modulus(ms), Modulus(ms)), BOf(4 * Ev.n)), Modulus(e.ms))
    \* the way from level to level, and nowhere else
    /\ \A i, j \in 0..(Levels - 1) : Ev.steps[i + 1][j + 1] = (IF j >= i THEN j - i ELSE -1)
    /\ Ev.foreign = -1
Init == l = 1
Next == GenPrime \/ GenModuli \/ ParamSet \/ (Finished /\ UNCHANGED l)
=============================================================================
