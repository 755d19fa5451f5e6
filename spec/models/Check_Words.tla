----------------------------- MODULE Check_Words ----------------------------
(* The operators of Words as TLC evaluates them (java/Words.java), against       *)
(* definitions on sequences of bits, for all pairs of the given edge words and    *)
(* their combinations.  One state per pair.                                        *)
EXTENDS Words, Sequences, TLC
MinW == -2147483647 - 1
Edge == { 0, 1, 255, 65536, 2147483647, MinW, MinW + 1, -1, -256,
          -271733879, 305419896, 1431655765 }
(* bit i of a word, from its value alone *)
Bit(w, i) == IF w >= 0 THEN (IF i = 31 THEN 0 ELSE (w \div 2^i) % 2)
             ELSE IF i = 31 THEN 1 ELSE (((w + 2147483647) + 1) \div 2^i) % 2
Bits(w) == [i \in 0..31 |-> Bit(w, i)]
Bits64(p) == [i \in 0..63 |-> IF i < 32 THEN Bit(p[2], i) ELSE Bit(p[1], i - 32)]
RECURSIVE CarryInto(_, _, _)
CarryInto(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i-1] + y[i-1] + CarryInto(x, y, i - 1) >= 2 THEN 1 ELSE 0
SumBits(x, y, n) == [i \in 0..(n-1) |-> (x[i] + y[i] + CarryInto(x, y, i)) % 2]
RECURSIVE ByteVal(_, _, _)
ByteVal(x, from, k) == IF k = 8 THEN 0 ELSE x[from + k] * 2^k + ByteVal(x, from, k + 1)
VARIABLES a, b
Init == a \in Edge /\ b \in Edge
Next == UNCHANGED << a, b >>
A == Bits(a)
B == Bits(b)
Two == << a, b >>
T == Bits64(Two)
U == Bits64(<< b, a >>)
Logic == /\ Bits(Add(a, b)) = SumBits(A, B, 32)
         /\ Bits(Xor(a, b)) = [i \in 0..31 |-> (A[i] + B[i]) % 2]
         /\ Bits(And(a, b)) = [i \in 0..31 |-> A[i] * B[i]]
         /\ Bits(Or(a, b)) = [i \in 0..31 |-> IF A[i] + B[i] > 0 THEN 1 ELSE 0]
         /\ Bits(Not(a)) = [i \in 0..31 |-> 1 - A[i]]
Shifts == \A n \in 0..31 :
            /\ Bits(Shl(a, n)) = [i \in 0..31 |-> IF i < n THEN 0 ELSE A[i - n]]
            /\ Bits(Shr(a, n)) = [i \in 0..31 |-> IF i + n > 31 THEN 0 ELSE A[i + n]]
            /\ Bits(Rotl(a, n)) = [i \in 0..31 |-> A[(i + 32 - n) % 32]]
            /\ Bits(Rotr(a, n)) = [i \in 0..31 |-> A[(i + n) % 32]]
Octets == LET le == << ByteVal(A, 0, 0), ByteVal(A, 8, 0), ByteVal(A, 16, 0), ByteVal(A, 24, 0) >>
              be == << le[4], le[3], le[2], le[1] >>
          IN  /\ BytesLE(a) = le /\ BytesBE(a) = be
              /\ WordLE(<< 7 >> \o le, 2) = a /\ WordBE(<< 7, 9 >> \o be \o << 1 >>, 3) = a
              /\ \A i \in 1..4, j \in 1..4 : LET o == << ByteVal(B, 0, 0), ByteVal(B, 8, 0), ByteVal(B, 16, 0), ByteVal(B, 24, 0) >> IN
                   /\ \A k \in 0..7 : (XorByte(le[i], o[j]) \div 2^k) % 2 = ((le[i] \div 2^k) + (o[j] \div 2^k)) % 2
                   /\ \A k \in 0..7 : (AndByte(le[i], o[j]) \div 2^k) % 2 = ((le[i] \div 2^k) % 2) * ((o[j] \div 2^k) % 2)
              /\ LET o == << ByteVal(B, 0, 0), ByteVal(B, 8, 0), ByteVal(B, 16, 0), ByteVal(B, 24, 0) >>
                 IN XorBytes(le, o) = [i \in 1..4 |-> XorByte(le[i], o[i])]
Wide == /\ Bits64(Add64(Two, << b, a >>)) = SumBits(T, U, 64)
        /\ Bits64(Xor64(Two, << b, a >>)) = [i \in 0..63 |-> (T[i] + U[i]) % 2]
        /\ Bits64(And64(Two, << b, a >>)) = [i \in 0..63 |-> T[i] * U[i]]
        /\ Bits64(Not64(Two)) = [i \in 0..63 |-> 1 - T[i]]
        /\ \A n \in 0..63 : /\ Bits64(Rotl64(Two, n)) = [i \in 0..63 |-> T[(i + 64 - n) % 64]]
                            /\ Bits64(Rotr64(Two, n)) = [i \in 0..63 |-> T[(i + n) % 64]]
                            /\ Bits64(Shr64(Two, n)) = [i \in 0..63 |-> IF i + n > 63 THEN 0 ELSE T[i + n]]
        /\ Bytes64BE(Two) = BytesBE(a) \o BytesBE(b) /\ Bytes64LE(Two) = BytesLE(b) \o BytesLE(a)
=============================================================================
