----------------------------- MODULE MC_Ladder ------------------------------
(* The Montgomery ladder on a small curve  v^2 = u^3 + A u^2 + u  over the field  *)
(* of Q elements (A^2 - 4 not a square), bit by bit with its conditional swaps,    *)
(* for every scalar and every u: at the end it yields the u-coordinate of k times *)
(* the point (found by repeated addition on the curve or its twist), 0 for the     *)
(* point at infinity; and two parties always agree.                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Q, A, BITS
M(x) == x % Q
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN M(x * Pow(x, e - 1)) ELSE LET h == Pow(x, e \div 2) IN M(h * h)
Inv(x) == Pow(M(x), Q - 2)
A24 == M((A - 2) * Inv(4))
Step(x1, q, b) ==
  LET x2 == IF b = 1 THEN q[3] ELSE q[1]   z2 == IF b = 1 THEN q[4] ELSE q[2]
      x3 == IF b = 1 THEN q[1] ELSE q[3]   z3 == IF b = 1 THEN q[2] ELSE q[4]
      aa == M((x2 + z2) * (x2 + z2))  bb == M((x2 - z2 + Q) * (x2 - z2 + Q))  e == M(aa - bb + Q)
      da == M(M(x3 - z3 + Q) * M(x2 + z2))  cb == M(M(x3 + z3) * M(x2 - z2 + Q))
      s == M(da + cb)  d == M(da - cb + Q)
      n == << M(aa * bb), M(e * M(aa + A24 * e)), M(s * s), M(x1 * M(d * d)) >>
  IN  IF b = 1 THEN << n[3], n[4], n[1], n[2] >> ELSE n
(* affine group law on  w v^2 = u^3 + A u^2 + u, w a square or not; << >> is infinity *)
Rhs(u) == M(M(M(u * u) * u) + M(A * M(u * u)) + u)
Add(w, p, q) ==
  IF p = << >> THEN q ELSE IF q = << >> THEN p
  ELSE IF p[1] = q[1] /\ M(p[2] + q[2]) = 0 THEN << >>
  ELSE LET lam == IF p = q THEN M(M(3 * M(p[1] * p[1]) + M(2 * M(A * p[1])) + 1) * Inv(M(2 * M(w * p[2]))))
                  ELSE M(M(q[2] - p[2] + Q) * Inv(M(q[1] - p[1] + Q)))
           u == M(M(w * M(lam * lam)) + 3 * Q - A - p[1] - q[1])
           v == M(M(lam * M(p[1] - u + Q)) + Q - p[2])
       IN  << u, v >>
RECURSIVE Mult(_, _, _)
Mult(w, k, p) == IF k = 0 THEN << >> ELSE Add(w, p, Mult(w, k - 1, p))
W(u) == IF \E v \in 0..(Q-1) : M(v * v) = Rhs(u) THEN 1 ELSE CHOOSE x \in 2..(Q-1) : \A v \in 0..(Q-1) : M(v * v) # x
V(u) == CHOOSE v \in 0..(Q-1) : M(W(u) * M(v * v)) = Rhs(u)
Coord(p) == IF p = << >> THEN 0 ELSE p[1]
VARIABLES k, u, q, t
Init == k \in 0..(2^BITS - 1) /\ u \in 0..(Q - 1) /\ q = << 1, 0, u, 1 >> /\ t = BITS
Next == t > 0 /\ t' = t - 1 /\ q' = Step(u, q, (k \div 2^(t-1)) % 2) /\ UNCHANGED << k, u >>
Result(z) == M(z[1] * Inv(z[2]))
RECURSIVE Run(_, _, _, _)
Run(x1, z, kk, n) == IF n = 0 THEN z ELSE Run(x1, Step(x1, z, (kk \div 2^(n-1)) % 2), kk, n - 1)
X(kk, uu) == Result(Run(uu, << 1, 0, uu, 1 >>, kk, BITS))
(* the base point <<0,0>> has order 2 and the ladder answers 0 for it, as RFC 7748 does *)
Right == t = 0 => Result(q) = IF u = 0 THEN 0 ELSE Coord(Mult(W(u), k, << u, V(u) >>))
Agree == t = 0 => \A j \in {1, 2, 3, 5, 8, 12} : X(j, Result(q)) = X(k, X(j, u))
=============================================================================
