----------------------------- MODULE MC_Counter -----------------------------
(* The counter blocks of CTR and GCM: an initial block << mid, low >>, message  *)
(* number n combined into the middle part, the low part incremented before each *)
(* block and wrapping within itself.  Over every initial block and all message  *)
(* lengths up to the size of the low part, no counter block is used twice; and  *)
(* a receiver that has seen as many messages uses the same ones.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS Bits,      \* of the middle part
          Low        \* size of the low part
Fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
Mid == 2^Bits
RECURSIVE XorN(_, _)
XorN(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorN(a \div 2, b \div 2)
Inc(b) == IF b[2] + 1 < Low THEN << b[1], b[2] + 1 >>
          ELSE << IF Fault = "carry" THEN (b[1] + 1) % Mid ELSE b[1], 0 >>
RECURSIVE Blocks(_, _)
Blocks(b, n) == IF n = 0 THEN <<>> ELSE LET x == Inc(b) IN << x >> \o Blocks(x, n - 1)
At(j, n) == << IF Fault = "add" THEN (j[1] + n) % (Mid \div 2) ELSE XorN(j[1], n), j[2] >>

VARIABLES j0, sn, rn, used, twice, agree
vars == << j0, sn, rn, used, twice, agree >>
Init == /\ j0 \in (0..Mid - 1) \X (0..Low - 1)
        /\ sn = 0 /\ rn = 0 /\ used = {} /\ twice = FALSE /\ agree = TRUE
Send(len) == /\ sn < Mid /\ sn' = sn + 1
             /\ LET bs == Blocks(At(j0, sn), len)
                    s == {bs[i] : i \in 1..len}
                IN  used' = used \cup s /\ twice' = (twice \/ Cardinality(s) < len \/ s \cap used # {})
             /\ UNCHANGED << j0, rn, agree >>
(* the receiver: message rn, in order *)
Recv(len) == /\ rn < sn /\ rn' = rn + 1
             /\ agree' = (agree /\ {Blocks(At(j0, rn), len)[i] : i \in 1..len} \subseteq {<< XorN(j0[1], rn), x >> : x \in 0..Low - 1})
             /\ UNCHANGED << j0, sn, used, twice >>
Next == \E len \in 0..Low : Send(len) \/ Recv(len)
Spec == Init /\ [][Next]_vars
NoReuse == ~twice
Agree == agree
=============================================================================
