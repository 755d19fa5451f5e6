------------------------------- MODULE ChaCha -------------------------------
(* RFC 8439, ChaCha20 block function and key stream.                          *)
EXTENDS Bytes

LOCAL QR(s, a, b, c, d) ==
  LET a1 == Add(s[a], s[b])  d1 == Rotl(Xor(s[d], a1), 16)
      c1 == Add(s[c], d1)    b1 == Rotl(Xor(s[b], c1), 12)
      a2 == Add(a1, b1)      d2 == Rotl(Xor(d1, a2), 8)
      c2 == Add(c1, d2)      b2 == Rotl(Xor(b1, c2), 7)
  IN  TLCEval([s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2])
LOCAL Rounds == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
                   <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
LOCAL DoubleRound(s) == FoldLeft(LAMBDA x, q: QR(x, q[1], q[2], q[3], q[4]), s, Rounds)
ChaChaBlock(key, nonce, counter) ==
  LET s == TLCEval(<< 1634760805, 857760878, 2036477234, 1797285236 >>
           \o [i \in 1..8 |-> WordLE(key, 4*i - 3)] \o <<counter>> \o [i \in 1..3 |-> WordLE(nonce, 4*i - 3)])
      w == FoldLeft(LAMBDA x, i: DoubleRound(x), s, Iota(10))
  IN  Concat([i \in 1..16 |-> BytesLE(Add(w[i], s[i]))])
(* n bytes of key stream from byte position pos (from 0) of the stream that    *)
(* starts at block counter first *)
ChaChaStream(key, nonce, first, pos, n) ==
  LET b0 == pos \div 64
      b1 == (pos + n - 1) \div 64
  IN  IF n = 0 THEN <<>>
      ELSE Cut(Concat([i \in 1..(b1 - b0 + 1) |-> ChaChaBlock(key, nonce, Add(first, b0 + i - 1))]), (pos % 64) + 1, n)
=============================================================================
