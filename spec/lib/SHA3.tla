-------------------------------- MODULE SHA3 --------------------------------
(* FIPS 202: Keccak-f[1600] and SHA3-224/256/384/512.                        *)
(* The state is a sequence of 25 lanes; lane (x, y) is A[x + 5y + 1].        *)
EXTENDS Bytes

(* round constants from the LFSR of FIPS 202, algorithm 5 *)
LOCAL LfsrStep(r) ==           \* r: bits <<r0..r7>>
  LET R == <<0>> \o r          \* 9 bits, R[1] = R0
      x == R[9]
  IN  << (R[1] + x) % 2, R[2], R[3], R[4], (R[5] + x) % 2, (R[6] + x) % 2, (R[7] + x) % 2, R[8] >>
LOCAL LfsrSeq == FoldLeft(LAMBDA acc, i: TLCEval([r |-> LfsrStep(acc.r), out |-> Append(acc.out, acc.r[1])]),
                          [r |-> <<1,0,0,0,0,0,0,0>>, out |-> <<>>], Iota(255)).out
LOCAL Rc(t) == LfsrSeq[(t % 255) + 1]
LOCAL RoundConst(ir) ==
  FoldLeft(LAMBDA w, j: LET pos == 2^j - 1
                        IN IF Rc(j + 7 * ir) = 0 THEN w
                           ELSE IF pos >= 32 THEN << Xor(w[1], Shl(1, pos - 32)), w[2] >>
                           ELSE << w[1], Xor(w[2], Shl(1, pos)) >>,
           <<0, 0>>, [i \in 1..7 |-> i - 1])
LOCAL RC == TLCEval([i \in 1..24 |-> RoundConst(i - 1)])

(* rotation offsets: FIPS 202, algorithm 2 *)
LOCAL RhoOffsets ==
  FoldLeft(LAMBDA acc, t: TLCEval([x |-> acc.y, y |-> (2 * acc.x + 3 * acc.y) % 5,
                          o |-> [acc.o EXCEPT ![acc.x + 5 * acc.y + 1] = (((t + 1) * (t + 2)) \div 2) % 64]]),
           [x |-> 1, y |-> 0, o |-> Zeros(25)], [i \in 1..24 |-> i - 1]).o
LOCAL RO == TLCEval(RhoOffsets)

LOCAL Theta(A) ==
  LET C == TLCEval([x \in 1..5 |-> Xor64(A[x], Xor64(Xor64(A[x+5], A[x+10]), Xor64(A[x+15], A[x+20])))])
      D == TLCEval([x \in 1..5 |-> Xor64(C[((x + 3) % 5) + 1], Rotl64(C[(x % 5) + 1], 1))])
  IN  TLCEval([i \in 1..25 |-> Xor64(A[i], D[((i - 1) % 5) + 1])])
(* rho then pi: B[x, y] = rot(A[(x + 3y) mod 5, x]) *)
LOCAL RhoPi(A) ==
  TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5  y == (i - 1) \div 5
                                 j == ((x + 3 * y) % 5) + 5 * x + 1
                             IN Rotl64(A[j], RO[j])])
LOCAL Chi(B) ==
  TLCEval([i \in 1..25 |-> LET x == (i - 1) % 5  y == 5 * ((i - 1) \div 5)
                             IN Xor64(B[i], And64(Not64(B[y + ((x + 1) % 5) + 1]), B[y + ((x + 2) % 5) + 1]))])
LOCAL Round(A, i) == LET S == Chi(RhoPi(Theta(A))) IN TLCEval([S EXCEPT ![1] = Xor64(S[1], RC[i])])
KeccakF(A) == FoldLeft(LAMBDA S, i: Round(S, i), A, Iota(24))

LOCAL Lane(p, i) == << WordLE(p, i + 4), WordLE(p, i) >>
LOCAL Absorb(A, p, o, rate) ==
  KeccakF(TLCEval([i \in 1..25 |-> IF i <= rate \div 8 THEN Xor64(A[i], Lane(p, o + 8 * (i - 1))) ELSE A[i]]))

LOCAL Pad(m, rate) ==
  LET q == rate - (Len(m) % rate)
  IN  m \o (IF q = 1 THEN <<134>> ELSE <<6>> \o Zeros(q - 2) \o <<128>>)

LOCAL Sponge(m, n) ==
  LET rate == 200 - 2 * n
      p == TLCEval(Pad(m, rate))
      S == FoldLeft(LAMBDA A, b: Absorb(A, p, rate * (b - 1) + 1, rate),
                    [i \in 1..25 |-> <<0, 0>>], Iota(Len(p) \div rate))
  IN  Take(Concat([i \in 1..(CeilDiv(n, 8)) |-> Bytes64LE(S[i])]), n)

SHA3_224(m) == Sponge(m, 28)
SHA3_256(m) == Sponge(m, 32)
SHA3_384(m) == Sponge(m, 48)
SHA3_512(m) == Sponge(m, 64)
=============================================================================
