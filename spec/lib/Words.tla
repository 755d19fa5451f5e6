------------------------------- MODULE Words -------------------------------
(* Machine words, as the standards Caligo implements use them.               *)
(*                                                                           *)
(* A 32-bit word is a number in -2^31 .. 2^31-1 (two's complement); TLC's    *)
(* integers have exactly that range.  A 64-bit word is a pair <<hi, lo>> of  *)
(* 32-bit words.  A byte is a number in 0..255.                              *)
(*                                                                           *)
(* Every operator below has a mathematical definition.  TLC evaluates those  *)
(* that need numbers beyond 2^31 through java/Words.java, one Java method    *)
(* per operator; models/Check_Words.tla compares them bit by bit.             *)
EXTENDS Integers, Sequences

U32(w) == IF w < 0 THEN w + 2^32 ELSE w
S32(n) == LET m == n % 2^32 IN IF m >= 2^31 THEN m - 2^32 ELSE m

BitOf(n, i) == (n \div 2^i) % 2
RECURSIVE BitSum(_, _, _)
BitSum(f(_), i, n) == IF i = n THEN 0 ELSE f(i) * 2^i + BitSum(f, i + 1, n)

Add(a, b)  == S32(U32(a) + U32(b))
Xor(a, b)  == S32(BitSum(LAMBDA i: (BitOf(U32(a), i) + BitOf(U32(b), i)) % 2, 0, 32))
And(a, b)  == S32(BitSum(LAMBDA i: BitOf(U32(a), i) * BitOf(U32(b), i), 0, 32))
Or(a, b)   == Add(Xor(a, b), And(a, b))
Not(a)     == -1 - a
Shl(a, n)  == S32(U32(a) * 2^n)
Shr(a, n)  == S32(U32(a) \div 2^n)
Rotl(a, n) == S32(U32(a) * 2^n + U32(a) \div 2^(32 - n))
Rotr(a, n) == Rotl(a, (32 - n) % 32)

(* bytes <-> words; i is the index of the first byte used *)
WordBE(s, i) == S32(s[i] * 2^24 + s[i+1] * 2^16 + s[i+2] * 2^8 + s[i+3])
WordLE(s, i) == S32(s[i+3] * 2^24 + s[i+2] * 2^16 + s[i+1] * 2^8 + s[i])
BytesBE(w)   == << U32(w) \div 2^24, (U32(w) \div 2^16) % 256, (U32(w) \div 2^8) % 256, U32(w) % 256 >>
BytesLE(w)   == << U32(w) % 256, (U32(w) \div 2^8) % 256, (U32(w) \div 2^16) % 256, U32(w) \div 2^24 >>

(* bytes *)
XorByte(a, b) == BitSum(LAMBDA i: (BitOf(a, i) + BitOf(b, i)) % 2, 0, 8)
AndByte(a, b) == BitSum(LAMBDA i: BitOf(a, i) * BitOf(b, i), 0, 8)
XorBytes(a, b) == [i \in 1..Len(a) |-> XorByte(a[i], b[i])]     \* Len(a) <= Len(b)

(* 64-bit words *)
Xor64(a, b) == << Xor(a[1], b[1]), Xor(a[2], b[2]) >>
And64(a, b) == << And(a[1], b[1]), And(a[2], b[2]) >>
Not64(a)    == << Not(a[1]), Not(a[2]) >>
Add64(a, b) == LET lo == U32(a[2]) + U32(b[2])
               IN  << S32(U32(a[1]) + U32(b[1]) + lo \div 2^32), S32(lo) >>
RECURSIVE Rotl64(_, _)
Rotl64(a, n) == IF n = 0 THEN a
                ELSE IF n < 32 THEN << S32(U32(a[1]) * 2^n + U32(a[2]) \div 2^(32-n)),
                                       S32(U32(a[2]) * 2^n + U32(a[1]) \div 2^(32-n)) >>
                ELSE Rotl64(<<a[2], a[1]>>, n - 32)
Rotr64(a, n) == Rotl64(a, (64 - n) % 64)
Shr64(a, n)  == IF n < 32 THEN << Shr(a[1], n), IF n = 0 THEN a[2] ELSE Or(Shr(a[2], n), Shl(a[1], 32 - n)) >>
                ELSE << 0, Shr(a[1], n - 32) >>
Bytes64BE(a) == BytesBE(a[1]) \o BytesBE(a[2])
Bytes64LE(a) == BytesLE(a[2]) \o BytesLE(a[1])
=============================================================================
