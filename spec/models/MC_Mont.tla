------------------------------ MODULE MC_Mont -------------------------------
(* Montgomery arithmetic with K-bit numbers, for every odd modulus and every     *)
(* pair of K-bit operands (reduced or not): Newton's iteration for -1/N, the     *)
(* three radix powers, reduction, conversion in and out, addition,               *)
(* multiplication and square-and-multiply exponentiation, step by step.          *)
EXTENDS Integers, TLC
CONSTANTS K, Steps                 \* Steps: doublings from 2 correct bits, 2 * 2^Steps >= K
R == 2^K
VARIABLES n, a, b, op, pc, inv, it, ma, mb, res, e
vars == << n, a, b, op, pc, inv, it, ma, mb, res, e >>
\* -1/n mod R, from the inverse
NegInv == (R - inv) % R
\* REDC on v < n * R; the sum may exceed R*R, the carry is kept
REDC(v) == LET m == ((v % R) * NegInv) % R
               s == v + m * n
               carry == s >= R * R
               t == (s % (R * R)) \div R
           IN  IF carry \/ t >= n THEN (t - n + R) % R ELSE t
R2 == (R * R) % n
Init == /\ n \in {x \in 1..(R - 1) : x % 2 = 1} /\ a \in 0..(R - 1) /\ b \in 0..(R - 1)
        /\ op \in {"add", "mul", "exp"} /\ pc = "newton" /\ inv = n % 4 /\ it = 0 /\ ma = 0 /\ mb = 0 /\ res = 0 /\ e = 0
Newton == pc = "newton" /\ IF it < Steps
            THEN inv' = (inv * ((2 + R * R - ((inv * n) % R)) % R)) % R /\ it' = it + 1 /\ UNCHANGED << n, a, b, op, pc, ma, mb, res, e >>
            ELSE pc' = "in" /\ UNCHANGED << n, a, b, op, inv, it, ma, mb, res, e >>
In == pc = "in" /\ ma' = REDC(a * R2) /\ mb' = REDC(b * R2) /\ pc' = op /\ res' = REDC(R2) /\ e' = b
      /\ UNCHANGED << n, a, b, op, inv, it >>
AddMul == /\ pc \in {"add", "mul"}
          /\ res' = IF pc = "mul" THEN REDC(ma * mb)
                    ELSE LET s == ma + mb  c == s >= R  t == s % R IN IF c \/ t >= n THEN (t - n + R) % R ELSE t
          /\ pc' = "out" /\ UNCHANGED << n, a, b, op, inv, it, ma, mb, e >>
Exp == /\ pc = "exp"
       /\ IF e = 0 THEN pc' = "out" /\ UNCHANGED << res, ma, e >>
          ELSE res' = (IF e % 2 = 1 THEN REDC(res * ma) ELSE res) /\ ma' = REDC(ma * ma) /\ e' = e \div 2 /\ UNCHANGED pc
       /\ UNCHANGED << n, a, b, op, inv, it, mb >>
Out == pc = "out" /\ pc' = "done" /\ res' = REDC(res) /\ UNCHANGED << n, a, b, op, inv, it, ma, mb, e >>
Next == Newton \/ In \/ AddMul \/ Exp \/ Out
Spec == Init /\ [][Next]_vars
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 % n ELSE (x * Pow(x, k - 1)) % n
InverseRight == pc # "newton" => (inv * n) % R = 1
Canonical == (pc \notin {"newton", "in"} => ma < n /\ mb < n /\ res < n)
Right == pc = "done" => res = CASE op = "add" -> (a + b) % n [] op = "mul" -> (a * b) % n [] OTHER -> Pow(a % n, b)
=============================================================================
