----------------------------- MODULE MC_Bignum ------------------------------
(* The multi-word algorithms of bignum with words of WB bits and NW words, for   *)
(* every pair of operands: addition with carry, subtraction with borrow,         *)
(* school-book multiplication (no accumulator exceeds two words), shift-and-     *)
(* subtract reduction and comparison.  One state per operand pair and step.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS WB, NW
B == 2^WB
Top == B^NW
Words(n) == [i \in 1..NW |-> (n \div B^(i-1)) % B]
RECURSIVE Value(_, _)
Value(ws, i) == IF i > Len(ws) THEN 0 ELSE ws[i] * B^(i-1) + Value(ws, i + 1)
Val(ws) == Value(ws, 1)

VARIABLES a, b, op, i, j, t, acc, done, sh
vars == << a, b, op, i, j, t, acc, done, sh >>
Ops == {"add", "sub", "mul", "red"}
Init == /\ a \in 0..(Top - 1) /\ b \in 0..(Top - 1) /\ op \in Ops /\ (op = "red" => b # 0)
        /\ i = 1 /\ j = 1 /\ t = 0 /\ done = FALSE /\ sh = 0
        /\ acc = IF op = "mul" THEN [k \in 1..(2 * NW) |-> 0] ELSE IF op = "red" THEN <<a, b>> ELSE Words(a)
AddStep == /\ op = "add" /\ i <= NW
           /\ LET s == t + acc[i] + Words(b)[i] IN acc' = [acc EXCEPT ![i] = s % B] /\ t' = s \div B
           /\ i' = i + 1 /\ UNCHANGED << a, b, op, j, done, sh >>
SubStep == /\ op = "sub" /\ i <= NW
           /\ LET s == acc[i] - Words(b)[i] - (IF t # 0 THEN 1 ELSE 0)       \* two-word difference modulo B^2
                  u == (s + B*B) % (B*B)
              IN acc' = [acc EXCEPT ![i] = u % B] /\ t' = u \div B
           /\ i' = i + 1 /\ UNCHANGED << a, b, op, j, done, sh >>
MulStep == /\ op = "mul" /\ i <= NW
           /\ IF j <= NW
              THEN LET s == t + Words(a)[i] * Words(b)[j] + acc[i + j - 1]
                   IN  acc' = [acc EXCEPT ![i + j - 1] = s % B] /\ t' = s \div B /\ j' = j + 1 /\ UNCHANGED i
              ELSE acc' = [acc EXCEPT ![i + NW] = t] /\ t' = 0 /\ j' = 1 /\ i' = i + 1
           /\ UNCHANGED << a, b, op, done, sh >>
(* i = 1: shift the modulus up to the top bit; i = 2: subtract and shift down *)
RedStep == /\ op = "red" /\ ~done
           /\ IF i = 1 THEN IF acc[2] < Top \div 2 THEN acc' = << acc[1], 2 * acc[2] >> /\ sh' = sh + 1 /\ UNCHANGED << i, done >>
                            ELSE i' = 2 /\ UNCHANGED << acc, sh, done >>
              ELSE /\ acc' = << IF acc[1] < acc[2] THEN acc[1] ELSE acc[1] - acc[2], acc[2] \div 2 >>
                   /\ IF sh = 0 THEN done' = TRUE /\ UNCHANGED sh ELSE sh' = sh - 1 /\ UNCHANGED done
                   /\ UNCHANGED i
           /\ UNCHANGED << a, b, op, j, t >>
Next == AddStep \/ SubStep \/ MulStep \/ RedStep
Spec == Init /\ [][Next]_vars
NoOverflow == t < B * B /\ (op \in {"add", "mul"} => t < B)
Exact == /\ (op = "add" /\ i = NW + 1 => Val(acc) = (a + b) % Top /\ ((t # 0) <=> a + b >= Top))
         /\ (op = "sub" /\ i = NW + 1 => Val(acc) = (a - b + Top) % Top /\ ((t # 0) <=> a < b))
         /\ (op = "mul" /\ i = NW + 1 => Val(acc) = a * b)
         /\ (op = "red" /\ done => acc[1] = a % b)
=============================================================================
