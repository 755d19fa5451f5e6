-------------------------------- MODULE AES ---------------------------------
(* FIPS 197, encryption, with keys of 16 or 32 bytes.  The S-box is computed   *)
(* from its definition (inverse in GF(2^8), affine map).                       *)
EXTENDS Bytes

LOCAL XTime(b) == XorByte((2 * b) % 256, IF b >= 128 THEN 27 ELSE 0)
LOCAL GMul(a, b) ==
  FoldLeft(LAMBDA acc, i: TLCEval([p |-> IF (b \div 2^(i-1)) % 2 = 1 THEN XorByte(acc.p, acc.a) ELSE acc.p, a |-> XTime(acc.a)]),
           [p |-> 0, a |-> a], Iota(8)).p
LOCAL Mul3 == TLCEval([b \in 0..255 |-> GMul(b, 3)])
LOCAL Exp3 == FoldLeft(LAMBDA s, i: Append(s, Mul3[s[i]]), <<1>>, Iota(254))     \* powers of the generator 3
LOCAL E3 == TLCEval(Exp3)
LOCAL GfInv == TLCEval([b \in 0..255 |-> IF b = 0 THEN 0
                           ELSE LET k == CHOOSE i \in 0..254 : E3[i + 1] = b IN E3[((255 - k) % 255) + 1]])
LOCAL RotB(b, n) == ((b * 2^n) % 256) + (b \div 2^(8 - n))
LOCAL Affine(b) == XorByte(XorByte(XorByte(b, RotB(b, 1)), XorByte(RotB(b, 2), RotB(b, 3))), XorByte(RotB(b, 4), 99))
SBox == TLCEval([b \in 0..255 |-> Affine(GfInv[b])])
LOCAL Mul2 == TLCEval([b \in 0..255 |-> XTime(b)])

(* key schedule: sequence of 4-byte words, Nk words of key, 4*(Nr+1) in all *)
LOCAL SubWord(w) == << SBox[w[1]], SBox[w[2]], SBox[w[3]], SBox[w[4]] >>
LOCAL RotWord(w) == << w[2], w[3], w[4], w[1] >>
LOCAL Rcon == << 1, 2, 4, 8, 16, 32, 64, 128, 27, 54 >>
KeyExpansion(key) ==
  LET nk == Len(key) \div 4
      nr == nk + 6
      first == [i \in 1..nk |-> Cut(key, 4 * i - 3, 4)]
      step(w, i) ==          \* appends word i (from 0)
        LET t == w[i]        \* word i - 1
            u == IF i % nk = 0 THEN LET r == SubWord(RotWord(t)) IN << XorByte(r[1], Rcon[i \div nk]), r[2], r[3], r[4] >>
                 ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(t) ELSE t
        IN  Append(w, TLCEval(XorBytes(w[i - nk + 1], u)))
      W == FoldLeft(LAMBDA w, i: step(w, i), TLCEval(first), [j \in 1..(4 * (nr + 1) - nk) |-> nk + j - 1])
  IN  TLCEval([r \in 1..(nr + 1) |-> W[4*r-3] \o W[4*r-2] \o W[4*r-1] \o W[4*r]])     \* round keys of 16 bytes

(* SubBytes and ShiftRows together: byte at row r, column c comes from column c + r *)
LOCAL SubShift(s) ==
  LET x == s IN << SBox[x[1]],  SBox[x[6]],  SBox[x[11]], SBox[x[16]],
                   SBox[x[5]],  SBox[x[10]], SBox[x[15]], SBox[x[4]],
                   SBox[x[9]],  SBox[x[14]], SBox[x[3]],  SBox[x[8]],
                   SBox[x[13]], SBox[x[2]],  SBox[x[7]],  SBox[x[12]] >>
LOCAL MixColumns(s) ==
  TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4  c == i - r
                               at(k) == s[c + ((r + k) % 4)]
                           IN  XorByte(XorByte(Mul2[at(0)], XorByte(Mul2[at(1)], at(1))), XorByte(at(2), at(3)))])
LOCAL Round(s, rk) == TLCEval(XorBytes(MixColumns(TLCEval(SubShift(s))), rk))
AesBlock(rks, block) ==
  LET n == Len(rks)
      s == FoldLeft(LAMBDA st, r: Round(st, rks[r]), XorBytes(block, rks[1]), [i \in 1..(n - 2) |-> i + 1])
  IN  XorBytes(SubShift(s), rks[n])
=============================================================================
