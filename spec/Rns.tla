-------------------------------- MODULE Rns --------------------------------
(***************************************************************************)
(* Residue number systems: a basis is a sequence of distinct primes ms, an *)
(* integer below their product is represented by its residues. What        *)
(* src/rns.rs and the scaling and modulus switching of src/rq.rs have to   *)
(* compute. All numbers are BigNats.                                       *)
(***************************************************************************)
EXTENDS BigPoly

IsBasis(ms) == /\ Len(ms) >= 1
               /\ \A i \in 1..Len(ms) : BIsPrime(ms[i]) /\ BLt(ms[i], BPow2(62))
               /\ \A i, j \in 1..Len(ms) : i # j => ms[i] # ms[j]
Modulus(ms) == BProd(ms)
Residues(x, ms) == [i \in 1..Len(ms) |-> BMod(x, ms[i])]
CanonicalResidues(r, ms) == Len(r) = Len(ms) /\ \A i \in 1..Len(r) : BLt(r[i], ms[i])

(* the unique integer below the product with residues r *)
Star(ms, i) == BDiv(Modulus(ms), ms[i])
Tilde(ms, i) == BModPow(Star(ms, i), BSub(ms[i], <<2>>), ms[i])
RECURSIVE LiftFrom(_, _, _)
LiftFrom(r, ms, i) == IF i > Len(ms) THEN <<>>
                      ELSE BAdd(BMul(BMulMod(r[i], Tilde(ms, i), ms[i]), Star(ms, i)), LiftFrom(r, ms, i + 1))
Lift(r, ms) == BMod(LiftFrom(r, ms, 1), Modulus(ms))                     \* (*J*)

(* matrix of residues (one row per prime) to the polynomial with big       *)
(* coefficients and back                                                   *)
IsRows(rows, n, ms) == /\ Len(rows) = Len(ms)                            \* (*J*)
                       /\ \A i \in 1..Len(ms) : IsPoly(rows[i], n, ms[i])
PLift(rows, ms) == [k \in 1..Len(rows[1]) |-> Lift([i \in 1..Len(ms) |-> rows[i][k]], ms)]  \* (*J*)
PRows(a, ms) == [i \in 1..Len(ms) |-> PRed(a, ms[i])]

(***************************************************************************)
(* Rounded scaling of the centered value. For x below q, the centered      *)
(* value c lies in [-q/2, q/2]; the result is num * c / den rounded to     *)
(* nearest. A value is "near a tie" when it is closer than 2^-Slack to a   *)
(* point where the rounding or the centering changes; there either         *)
(* neighbour is allowed.                                                   *)
(***************************************************************************)
Slack == 40
BAbsDiff(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)
(* round(num * c / den) for a magnitude c >= 0, nearest, ties up *)
RoundMag(c, num, den) == BDiv(BAdd(BMul(<<2>>, BMul(num, c)), den), BMul(<<2>>, den))
(* the set of admissible roundings of the magnitude *)
RoundSet(c, num, den) ==
    LET d2 == BMul(<<2>>, den)
        s  == BAdd(BMul(<<2>>, BMul(num, c)), den)     \* 2 num c + den
        r  == BDiv(s, d2)
        fr == BMod(s, d2)                              \* distance above the tie below
        eps == BDiv(d2, BPow2(Slack))
    IN  {r} \cup (IF BLe(fr, eps) /\ r # <<>> THEN {BSub(r, <<1>>)} ELSE {})
            \cup (IF BLe(BSub(d2, fr), eps) THEN {BAdd(r, <<1>>)} ELSE {})
(* signed candidates: a set of [m |-> magnitude, n |-> negative] *)
ScaleSet(x, q, num, den) ==
    LET pos == {[m |-> r, n |-> FALSE] : r \in RoundSet(x, num, den)}
        neg == {[m |-> r, n |-> TRUE] : r \in RoundSet(BSub(q, x), num, den)}
        tie == BLe(BAbsDiff(BMul(<<2>>, x), q), BDiv(q, BPow2(Slack)))
    IN  IF tie THEN pos \cup neg
        ELSE IF BLt(BMul(<<2>>, x), q) THEN pos ELSE neg
SignedMod(s, m) == IF s.n THEN BNegMod(s.m, m) ELSE BMod(s.m, m)
(* residues out in basis to are an admissible scaling of x below q *)
IsScaled(x, q, num, den, out, to) ==                                     \* (*J*)
    \E s \in ScaleSet(x, q, num, den) :
        \A i \in 1..Len(to) : out[i] = SignedMod(s, to[i])
IsScaledRows(rows, ms, num, den, out, to) ==                             \* (*J*)
    LET q == Modulus(ms)  a == PLift(rows, ms)
    IN  \A k \in 1..Len(a) : IsScaled(a[k], q, num, den, [i \in 1..Len(to) |-> out[i][k]], to)

(* the same coefficient by coefficient, for one modulus *)
PIsScaled(a, q, num, den, out, to) ==                                    \* (*J*)
    Len(out) = Len(a) /\ \A k \in 1..Len(a) : IsScaled(a[k], q, num, den, <<out[k]>>, <<to>>)
PRoundMod(a, num, den, m) == [k \in 1..Len(a) |-> BMod(RoundMag(a[k], num, den), m)]       \* (*J*)
(* rounded scaling of centered values modulo M *)
PRoundSigned(a, M, num, den, m) ==                                       \* (*J*)
    [k \in 1..Len(a) |-> IF BLt(M, BMul(<<2>>, a[k])) THEN BNegMod(RoundMag(BSub(M, a[k]), num, den), m)
                         ELSE BMod(RoundMag(a[k], num, den), m)]
(* centered representatives modulo q, given modulo M *)
PCentered(a, q, M) ==                                                    \* (*J*)
    [i \in 1..Len(a) |-> IF BLt(q, BMul(<<2>>, a[i])) THEN BSub(M, BSub(q, a[i])) ELSE a[i]]
(* a coefficient so close to q/2 that its centered representative is not    *)
(* determined; never the case for random masks                             *)
PNearHalf(a, q) == \E i \in 1..Len(a) : BLe(BAbsDiff(BMul(<<2>>, a[i]), q), BDiv(q, BPow2(Slack)))   \* (*J*)
(* sum of centered magnitudes *)
RECURSIVE L1From(_, _, _)
L1From(a, q, i) == IF i > Len(a) THEN <<>> ELSE BAdd(BAbs(a[i], q), L1From(a, q, i + 1))
L1(a, q) == L1From(a, q, 1)                                              \* (*J*)

(***************************************************************************)
(* Modulus switching: drop the last prime, divide and round.               *)
(***************************************************************************)
Front(ms) == SubSeq(ms, 1, Len(ms) - 1)
SwitchDown(x, ms) ==
    LET q == ms[Len(ms)] IN BMod(BDiv(BAdd(x, BHalf(q)), q), Modulus(Front(ms)))
RECURSIVE SwitchTimes(_, _, _)
SwitchTimes(x, ms, k) == IF k = 0 THEN x ELSE SwitchTimes(SwitchDown(x, ms), Front(ms), k - 1)
=============================================================================
