----------------------------- MODULE WideWord ------------------------------
(***************************************************************************)
(* The four-limb integer of src/utils.rs with limbs of W bits: the carry   *)
(* chains of addition and subtraction, limb by limb, and the five cases of *)
(* the right shift. TLC explores all operands and all distances.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT W
B == 2^W
Limbs == 0..3
Words == [Limbs -> 0..(B - 1)]
Val(x) == x[0] + B * (x[1] + B * (x[2] + B * x[3]))
Top == B * B * B * B

VARIABLES pc, op, x, y, i, c, out
vars == <<pc, op, x, y, i, c, out>>

Zero == [k \in Limbs |-> 0]
Init == /\ pc = "start" /\ i = 0 /\ c = 0 /\ out = Zero
        /\ \/ op = "add" /\ x \in Words /\ y \in Words
           \/ op = "sub" /\ x \in Words /\ y \in Words
           \/ op = "shr" /\ x \in Words /\ y \in {[Zero EXCEPT ![0] = k] : k \in 0..(4 * W - 1)}

(* overflow flags as the machine reports them: two additions per limb *)
AddLimb == /\ pc = "start" /\ op = "add"
           /\ LET s1 == x[i] + y[i]   f1 == IF s1 >= B THEN 1 ELSE 0
                  s2 == (s1 % B) + c  f2 == IF s2 >= B THEN 1 ELSE 0
              IN  /\ out' = [out EXCEPT ![i] = s2 % B]
                  /\ c' = IF f1 = 1 \/ f2 = 1 THEN 1 ELSE 0
           /\ i' = i + 1 /\ pc' = IF i = 3 THEN "done" ELSE "start"
           /\ UNCHANGED <<op, x, y>>
SubLimb == /\ pc = "start" /\ op = "sub"
           /\ LET s1 == x[i] - y[i]         f1 == IF s1 < 0 THEN 1 ELSE 0
                  s2 == ((s1 + B) % B) - c  f2 == IF s2 < 0 THEN 1 ELSE 0
              IN  /\ out' = [out EXCEPT ![i] = (s2 + B) % B]
                  /\ c' = IF f1 = 1 \/ f2 = 1 THEN 1 ELSE 0
           /\ i' = i + 1 /\ pc' = IF i = 3 THEN "done" ELSE "start"
           /\ UNCHANGED <<op, x, y>>
Lo(v, k) == v \div 2^k                      \* v >> k within one limb
Hi(v, k) == (v * 2^k) % B                   \* v << k within one limb
Shift == /\ pc = "start" /\ op = "shr"
         /\ LET k == y[0] IN
            out' = CASE k >= 3 * W -> [Zero EXCEPT ![0] = Lo(x[3], k - 3 * W)]
                     [] k > 2 * W /\ k < 3 * W ->
                          [Zero EXCEPT ![0] = Lo(x[2], k - 2 * W) + Hi(x[3], 3 * W - k), ![1] = Lo(x[3], k - 2 * W)]
                     [] k = 2 * W -> [Zero EXCEPT ![0] = x[2], ![1] = x[3]]
                     [] k > W /\ k < 2 * W ->
                          [Zero EXCEPT ![0] = Lo(x[1], k - W) + Hi(x[2], 2 * W - k),
                                       ![1] = Lo(x[2], k - W) + Hi(x[3], 2 * W - k), ![2] = Lo(x[3], k - W)]
                     [] k = W -> [Zero EXCEPT ![0] = x[1], ![1] = x[2], ![2] = x[3]]
                     [] k > 0 /\ k < W ->
                          [Zero EXCEPT ![0] = Lo(x[0], k) + Hi(x[1], W - k), ![1] = Lo(x[1], k) + Hi(x[2], W - k),
                                       ![2] = Lo(x[2], k) + Hi(x[3], W - k), ![3] = Lo(x[3], k)]
                     [] OTHER -> x
         /\ pc' = "done" /\ UNCHANGED <<op, x, y, i, c>>
Next == AddLimb \/ SubLimb \/ Shift \/ (pc = "done" /\ UNCHANGED vars)

RECURSIVE Low(_, _)
Low(v, k) == IF k = 0 THEN 0 ELSE v[k - 1] * B^(k - 1) + Low(v, k - 1)
(* after i limbs the partial result and the carry account for the operands *)
Carry == pc = "start" => CASE op = "add" -> Low(x, i) + Low(y, i) = Low(out, i) + c * B^i
                           [] op = "sub" -> Low(x, i) - Low(y, i) = Low(out, i) - c * B^i
                           [] OTHER -> TRUE
Exact == pc = "done" => Val(out) = CASE op = "add" -> (Val(x) + Val(y)) % Top
                                     [] op = "sub" -> (Val(x) - Val(y)) % Top
                                     [] op = "shr" -> Val(x) \div 2^y[0]
=============================================================================
