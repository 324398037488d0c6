--------------------------------- MODULE Pir ---------------------------------
(***************************************************************************)
(* Design of the query protocol (Client and Server of src/evaluations.rs)  *)
(* without encryption: a query is a vector of selection bits; the server   *)
(* takes the inner product of the first bits with every block of records,  *)
(* then folds dimension after dimension. Requests of several clients are   *)
(* in flight at once and answered in any order. Checked for every shape in *)
(* the bounds, every position and every interleaving.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFirst, Dims, MaxK, Clients
VARIABLES first, dim, k, pc, pos, work, level, count
vars == <<first, dim, k, pc, pos, work, level, count>>
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Rows == first * Power(dim, k)
Db == [i \in 0..(Rows - 1) |-> 100 + i]          \* every record different
Positions == {p \in [0..k -> 0..((IF first > dim THEN first ELSE dim) - 1)] :
                 p[0] < first /\ \A i \in 1..k : p[i] < dim}
Bits(p) == [i \in 0..(first + k * dim - 1) |->
              IF i < first THEN (IF p[0] = i THEN 1 ELSE 0)
              ELSE IF p[1 + ((i - first) \div dim)] = (i - first) % dim THEN 1 ELSE 0]
RECURSIVE Dot(_, _, _, _, _)
Dot(b, off, v, base, n) == IF n = 0 THEN 0 ELSE b[off + n - 1] * v[base + n - 1] + Dot(b, off, v, base, n - 1)
\* one stage: blocks of width w, selection bits from off
Fold(b, off, v, w) == [j \in 0..((Cardinality(DOMAIN v) \div w) - 1) |-> Dot(b, off, v, j * w, w)]
RECURSIVE Idx(_, _)
Idx(p, i) == IF i > k THEN 0 ELSE p[i] + dim * Idx(p, i + 1)
Record(p) == Db[p[0] + first * Idx(p, 1)]
\* the code counts the dimensions by dividing
RECURSIVE CountDims(_)
CountDims(len) == IF len > 1 THEN 1 + CountDims(len \div dim) ELSE 0

Init == /\ first \in 1..MaxFirst /\ dim \in Dims /\ k \in 0..MaxK
        /\ pc = [c \in Clients |-> "idle"] /\ pos = [c \in Clients |-> <<>>]
        /\ work = [c \in Clients |-> <<>>] /\ level = [c \in Clients |-> 0] /\ count = 0
Ask(c) == /\ pc[c] = "idle" /\ count < Cardinality(Clients) + 1
          /\ \E p \in Positions : pos' = [pos EXCEPT ![c] = p]
          /\ pc' = [pc EXCEPT ![c] = "asked"] /\ level' = [level EXCEPT ![c] = 0] /\ count' = count + 1
          /\ work' = [work EXCEPT ![c] = Db] /\ UNCHANGED <<first, dim, k>>
Stage(c) == /\ pc[c] = "asked"
            /\ LET b == Bits(pos[c]) IN
               work' = [work EXCEPT ![c] = IF level[c] = 0 THEN Fold(b, 0, @, first)
                                          ELSE Fold(b, first + (level[c] - 1) * dim, @, dim)]
            /\ level' = [level EXCEPT ![c] = @ + 1]
            /\ pc' = [pc EXCEPT ![c] = IF level[c] = k THEN "done" ELSE "asked"]
            /\ UNCHANGED <<first, dim, k, pos, count>>
Receive(c) == pc[c] = "done" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<first, dim, k, pos, work, level, count>>
Next == \E c \in Clients : Ask(c) \/ Stage(c) \/ Receive(c)
Correct == \A c \in Clients : pc[c] = "done" => Cardinality(DOMAIN work[c]) = 1 /\ work[c][0] = Record(pos[c])
Dimensions == CountDims(Rows \div first) = k
ShapeOnly == \A p \in Positions : Cardinality(DOMAIN Bits(p)) = first + k * dim
Injective == \A p, r \in Positions : p # r => Record(p) # Record(r)
=============================================================================
