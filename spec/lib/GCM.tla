-------------------------------- MODULE GCM ---------------------------------
(* NIST SP 800-38D over AES, the TLS 1.3 per-message nonce (RFC 8446 5.3), and  *)
(* the CTR mode of Caligo.  Blocks are sequences of 16 bytes.                   *)
EXTENDS AES

LOCAL ToWords(b) == << WordBE(b, 1), WordBE(b, 5), WordBE(b, 9), WordBE(b, 13) >>
LOCAL FromWords(w) == BytesBE(w[1]) \o BytesBE(w[2]) \o BytesBE(w[3]) \o BytesBE(w[4])
LOCAL Xor4(a, b) == << Xor(a[1], b[1]), Xor(a[2], b[2]), Xor(a[3], b[3]), Xor(a[4], b[4]) >>
LOCAL ShiftRight1(v) == << Shr(v[1], 1), Or(Shr(v[2], 1), Shl(v[1], 31)), Or(Shr(v[3], 1), Shl(v[2], 31)), Or(Shr(v[4], 1), Shl(v[3], 31)) >>
LOCAL R == << -520093696, 0, 0, 0 >>                                  \* 11100001 || 0^120

(* the multiples of y: y, y*x, ..., y*x^127 *)
LOCAL Multiples(y) ==
  FoldLeft(LAMBDA s, i: Append(s, LET v == s[i] IN TLCEval(IF And(v[4], 1) = 1 THEN Xor4(ShiftRight1(v), R) ELSE ShiftRight1(v))),
           <<y>>, Iota(127))
LOCAL BitSet(x, i) == And(Shr(x[((i - 1) \div 32) + 1], 31 - ((i - 1) % 32)), 1) = 1
LOCAL MulBy(x, mult) == FoldLeft(LAMBDA z, i: IF BitSet(x, i) THEN TLCEval(Xor4(z, mult[i])) ELSE z, <<0, 0, 0, 0>>, Iota(128))
GfMul(x, y) == FromWords(MulBy(ToWords(x), Multiples(ToWords(y))))

(* GHASH_H of data whose length is a multiple of 16 *)
Ghash(h, d) ==
  LET m == Multiples(ToWords(h))
  IN  FromWords(FoldLeft(LAMBDA y, i: MulBy(Xor4(y, ToWords(Cut(d, 16 * i - 15, 16))), m), <<0, 0, 0, 0>>, Iota(Len(d) \div 16)))

(* the same, starting from state y *)
GhashFrom(h, y, d) ==
  LET m == Multiples(ToWords(h))
  IN  FromWords(FoldLeft(LAMBDA z, i: MulBy(Xor4(z, ToWords(Cut(d, 16 * i - 15, 16))), m), ToWords(y), Iota(Len(d) \div 16)))
(* x^n; the one of the field is the block 1 0^127 *)
RECURSIVE GfPow(_, _)
GfPow(x, n) ==
  IF n = 0 THEN << 128 >> \o Zeros(15)
  ELSE LET r == TLCEval(GfPow(x, n \div 2))
           q == TLCEval(GfMul(r, r))
       IN  IF n % 2 = 1 THEN TLCEval(GfMul(q, x)) ELSE q

LOCAL PadTo16(d) == d \o Zeros((16 - (Len(d) % 16)) % 16)
(* 8 (hi 2^24 + n) as 64 bits, n < 2^31 *)
LOCAL Len64Of(hi, n) == Bytes64BE(Add64(<< hi \div 32, Shl(hi % 32, 27) >>, << n \div 2^29, Shl(n, 3) >>))
LOCAL Len64(n) == Len64Of(0, n)
AuthData(aad, ct) == PadTo16(aad) \o PadTo16(ct) \o Len64(Len(aad)) \o Len64(Len(ct))

Inc32(c) == Take(c, 12) \o BytesBE(Add(WordBE(c, 13), 1))
(* E(inc(c)), E(inc(inc(c))), ... cut to n bytes *)
KeyStream(rks, c, n) ==
  LET r == FoldLeft(LAMBDA acc, i: LET x == TLCEval(Inc32(acc.c)) IN TLCEval([c |-> x, out |-> acc.out \o AesBlock(rks, x)]),
                    [c |-> c, out |-> <<>>], Iota(CeilDiv(n, 16)))
  IN  Take(r.out, n)

(* which IVs are accepted, and the pre-counter block *)
IvOK(iv) == Len(iv) = 12 \/ Len(iv) = 8 \/ Len(iv) > 12
J0(rks, iv) ==
  IF Len(iv) = 12 THEN iv \o << 0, 0, 0, 1 >>
  ELSE Ghash(AesBlock(rks, Zeros(16)), PadTo16(iv) \o Zeros(8) \o Len64(Len(iv)))

(* message number, 8 bytes big-endian, into bytes 5..12 *)
ForMessage(c, ctr) == XorBytes(c, Zeros(4) \o ctr \o Zeros(4))

GcmCrypt(rks, j0, text) == XorBytes(text, KeyStream(rks, j0, Len(text)))
GcmTag(rks, j0, aad, ct) == XorBytes(Ghash(AesBlock(rks, Zeros(16)), AuthData(aad, ct)), AesBlock(rks, j0))

(* n bytes of the key stream of initial counter block c from byte position hi 2^24 + pos (from 0) on *)
KeyStreamAt(rks, c, hi, pos, n) ==
  IF n = 0 THEN <<>>
  ELSE LET b0 == pos \div 16
           b1 == (pos + n - 1) \div 16
           At(b) == AesBlock(rks, TLCEval(Take(c, 12) \o BytesBE(Add(WordBE(c, 13), hi * 2^20 + b + 1))))
       IN  Cut(Concat([i \in 1..(b1 - b0 + 1) |-> At(b0 + i - 1)]), (pos % 16) + 1, n)
(* the tag of additional data a followed by za zero bytes and ciphertext t followed by zt zero bytes, za and zt given *)
(* as << hi, lo >> for hi 2^24 + lo: a run of zero blocks multiplies the GHASH state by a power of H *)
GcmTagZeros(rks, j0, a, za, t, zt) ==
  LET h == TLCEval(AesBlock(rks, Zeros(16)))
      Run(y, d, z) == TLCEval(GfMul(TLCEval(GhashFrom(h, y, PadTo16(d))),
                                    TLCEval(GfPow(h, z[1] * 2^20 + CeilDiv(Len(d) + z[2], 16) - CeilDiv(Len(d), 16)))))
      y1 == Run(Zeros(16), a, za)
      y2 == Run(y1, t, zt)
  IN  XorBytes(GhashFrom(h, y2, Len64Of(za[1], Len(a) + za[2]) \o Len64Of(zt[1], Len(t) + zt[2])), AesBlock(rks, j0))

(* 8-byte big-endian counter plus one *)
Inc64(c) == Bytes64BE(Add64(<< WordBE(c, 1), WordBE(c, 5) >>, << 0, 1 >>))
=============================================================================
