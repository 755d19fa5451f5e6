-------------------------------- MODULE SHA1 --------------------------------
(* FIPS 180-4, SHA-1.                                                        *)
EXTENDS Bytes

LOCAL K == << 1518500249, 1859775393, -1894007588, -899497514 >>
LOCAL F(r, x, y, z) ==
  CASE r = 1 -> Xor(And(x, y), And(Not(x), z))
    [] r = 3 -> Xor(Xor(And(x, y), And(x, z)), And(y, z))
    [] OTHER -> Xor(Xor(x, y), z)

LOCAL Schedule(m, o) ==
  FoldLeft(LAMBDA W, t: Append(W, Rotl(Xor(Xor(W[t-3], W[t-8]), Xor(W[t-14], W[t-16])), 1)),
           TLCEval([t \in 1..16 |-> WordBE(m, o + 4*(t-1))]), [i \in 1..64 |-> 16 + i])

LOCAL Step(v, t, w) ==
  LET r == (t - 1) \div 20 + 1
  IN << Add(Add(Rotl(v[1], 5), F(r, v[2], v[3], v[4])), Add(v[5], Add(K[r], w))),
        v[1], Rotl(v[2], 30), v[3], v[4] >>

LOCAL Compress(H, m, o) ==
  LET W == Schedule(m, o)
      V == FoldLeft(LAMBDA v, t: TLCEval(Step(v, t, W[t])), H, Iota(80))
  IN  TLCEval([i \in 1..5 |-> Add(H[i], V[i])])

LOCAL Pad(m) ==
  LET z == (64 - ((Len(m) + 9) % 64)) % 64
  IN  m \o <<128>> \o Zeros(z) \o << 0, 0, 0, Len(m) \div 2^29 >> \o BytesBE(Shl(Len(m), 3))

SHA1(m) ==
  LET p == TLCEval(Pad(m))
      H == FoldLeft(LAMBDA h, b: Compress(h, p, 64*(b-1) + 1),
                    << 1732584193, -271733879, -1732584194, 271733878, -1009589776 >>,
                    Iota(Len(p) \div 64))
  IN  Concat([i \in 1..5 |-> BytesBE(H[i])])
=============================================================================
