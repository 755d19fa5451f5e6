----------------------------- MODULE Curve25519 -----------------------------
(* RFC 7748: the field of 2^255-19 and the X25519 function. *)
EXTENDS BigNat, TLC
P == NatMinus(PowerOf2(255), <<19>>)
FMod(x) == Rem(x, P)
FAdd(a, b) == FMod(NatPlus(a, b))
FSub(a, b) == FMod(NatMinus(NatPlus(a, P), FMod(b)))
FMul(a, b) == FMod(NatTimes(a, b))
FInv(a) == PowerMod(a, NatMinus(P, <<2>>), P)             \* 0 for 0, as RFC 7748 wants
Congruent(x, y) == FMod(x) = FMod(y)

Clamp(k) == [i \in 1..32 |-> CASE i = 1 -> k[1] - (k[1] % 8)
                              [] i = 32 -> 64 + (k[32] % 64)
                              [] OTHER -> k[i]]
DecodeU(u) == FMod(FromLE([i \in 1..32 |-> IF i = 32 THEN u[32] % 128 ELSE u[i]]))
A24 == FromInt(121665)
(* one ladder step on << x2, z2, x3, z3 >> for bit b: conditional swap, step, swap back *)
LadderStep(x1, q, b) ==
  LET x2 == IF b = 1 THEN q[3] ELSE q[1]   z2 == IF b = 1 THEN q[4] ELSE q[2]
      x3 == IF b = 1 THEN q[1] ELSE q[3]   z3 == IF b = 1 THEN q[2] ELSE q[4]
      A == TLCEval(FAdd(x2, z2))  AA == TLCEval(FMul(A, A))
      B == TLCEval(FSub(x2, z2))  BB == TLCEval(FMul(B, B))
      EE == TLCEval(FSub(AA, BB))
      DA == TLCEval(FMul(FSub(x3, z3), A))
      CB == TLCEval(FMul(FAdd(x3, z3), B))
      s == TLCEval(FAdd(DA, CB))  d == TLCEval(FSub(DA, CB))
      nx3 == TLCEval(FMul(s, s))
      nz3 == TLCEval(FMul(x1, FMul(d, d)))
      nx2 == TLCEval(FMul(AA, BB))
      nz2 == TLCEval(FMul(EE, FAdd(AA, FMul(A24, EE))))
  IN  IF b = 1 THEN << nx3, nz3, nx2, nz2 >> ELSE << nx2, nz2, nx3, nz3 >>
RECURSIVE Ladder(_, _, _, _)
Ladder(x1, q, k, t) == IF t < 0 THEN q ELSE Ladder(x1, TLCEval(LadderStep(x1, q, BitAt(k, t))), k, t - 1)
X25519(k, u) ==
  LET x1 == TLCEval(DecodeU(u))
      q == TLCEval(Ladder(x1, << One, Zero, x1, One >>, TLCEval(FromLE(Clamp(k))), 254))
  IN  ToLE(FMul(q[1], FInv(q[2])), 32)
=============================================================================
