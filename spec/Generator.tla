------------------------------ MODULE Generator -----------------------------
(* The random source: injected test values first, the last of them first; then a  *)
(* 64-bit linear congruential generator of which two steps make one draw (the       *)
(* upper halves of both).  A 64-bit value is its 8 bytes, low-order first.           *)
EXTENDS BigNat, Sequences
Mult == <<45, 127, 149, 76, 45, 244, 81, 88>>          \* 6364136223846793005
Incr == <<79, 129, 103, 247, 126, 123, 5, 20>>          \* 1442695040888963407
Seed == <<91, 98, 9, 186, 101, 35, 120, 169>>          \* a9782365ba09625b
Fresh == [c |-> Seed, tv |-> <<>>]
Lcg(c) == ToLE(NatPlus(NatTimes(FromLE(c), FromLE(Mult)), FromLE(Incr)), 8)
(* n steps at once: the affine map m * c + i, composed with itself *)
RECURSIVE Affine(_)
Affine(n) ==
  IF n = 0 THEN [m |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, i |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
  ELSE LET h == Affine(n \div 2)
           o == IF n % 2 = 1 THEN [m |-> Mult, i |-> Incr] ELSE [m |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, i |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
           Then(a, b) == [m |-> ToLE(NatTimes(FromLE(a.m), FromLE(b.m)), 8), i |-> ToLE(NatPlus(NatTimes(FromLE(a.i), FromLE(b.m)), FromLE(b.i)), 8)]
       IN  Then(Then(h, h), o)
(* the state after n draws from the generator (no injected values left) *)
Jump(g, n) == LET a == Affine(2 * n) IN [c |-> ToLE(NatPlus(NatTimes(FromLE(g.c), FromLE(a.m)), FromLE(a.i)), 8), tv |-> <<>>]
(* the value a draw returns and the state after it *)
Draw(g) == IF g.tv # <<>>
           THEN [v |-> g.tv[Len(g.tv)], g |-> [c |-> g.c, tv |-> SubSeq(g.tv, 1, Len(g.tv) - 1)]]
           ELSE LET a == Lcg(g.c)  b == Lcg(a) IN [v |-> SubSeq(b, 5, 8) \o SubSeq(a, 5, 8), g |-> [c |-> b, tv |-> <<>>]]
RECURSIVE Draws(_, _, _)
Draws(g, n, acc) == IF n = 0 THEN [v |-> acc, g |-> g] ELSE LET d == Draw(g) IN Draws(d.g, n - 1, Append(acc, d.v))
(* the bytes of a buffer of that many bytes, filled *)
Filled(g, bytes) == Draws(g, (bytes + 7) \div 8, <<>>)
=============================================================================
