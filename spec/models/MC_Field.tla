------------------------------ MODULE MC_Field ------------------------------
(* The field code's shape with N-bit registers and modulus 2^(N-1) - C, for all   *)
(* pairs of representatives: folding 2^N = 2C on overflow, at most three          *)
(* additions of the modulus after a borrow, two conditional subtractions for      *)
(* full reduction.  One state per operand pair and operation; every result fits   *)
(* the register and is congruent.                                                 *)
EXTENDS Integers, TLC
CONSTANTS N, C
T == 2^N
P == 2^(N - 1) - C
F == 2 * C                                   \* T mod P
VARIABLES a, b, op, out
Vals == 0..(T - 1)
Ov(x) == IF x >= T THEN 1 ELSE 0
AddF(x, y) == LET s == x + y  v == s % T  s2 == v + Ov(s) * F  v2 == s2 % T IN v2 + Ov(s2) * F
SubF(x, y) == LET uf == x < y
                  v == (x - y + T) % T
                  s1 == v + (IF uf THEN P ELSE 0)       o1 == s1 >= T
                  s2 == (s1 % T) + (IF uf /\ ~o1 THEN P ELSE 0)  o2 == s2 >= T
                  s3 == (s2 % T) + (IF uf /\ ~o1 /\ ~o2 THEN P ELSE 0)
              IN  s3 % T
MulF(x, y) == LET z == x * y  u == (z \div T) * F  IN AddF(AddF(u % T, z % T), (u \div T) * F)
Red(x) == LET v == IF x < P THEN x ELSE x - P IN IF v < P THEN v ELSE v - P
Init == a \in Vals /\ b \in Vals /\ op \in {"add", "sub", "mul", "red"} /\ out = -1
Next == /\ out = -1 /\ UNCHANGED << a, b, op >>
        /\ out' = CASE op = "add" -> AddF(a, b) [] op = "sub" -> SubF(a, b) [] op = "mul" -> MulF(a, b) [] OTHER -> Red(a)
Fits == out < T
Right == out >= 0 => CASE op = "add" -> out % P = (a + b) % P
                       [] op = "sub" -> (out + b) % P = a % P
                       [] op = "mul" -> out % P = (a * b) % P
                       [] OTHER -> out = a % P
=============================================================================
