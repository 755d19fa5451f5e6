---------------------------- MODULE Calculator ------------------------------
(* Registers of one width holding big numbers (bignum<Bits>), and every          *)
(* operation on them.  A register is the sequence of its 4N bytes, little-endian. *)
EXTENDS BigNat, Bytes, HexText

CONSTANT Regs
VARIABLES w,       \* width in bytes
          reg      \* register -> bytes

CInit == w = 0 /\ reg = [r \in Regs |-> <<>>]
Width(bits) == w' = bits \div 8 /\ reg' = [r \in Regs |-> Zeros(bits \div 8)]
V(r) == FromLE(reg[r])
M == PowerOf2(8 * w)
Put(r, b) == reg' = [reg EXCEPT ![r] = b] /\ UNCHANGED w
PutNum(r, n) == Put(r, ToLE(n, w))                    \* n mod 2^width

(* importing: little-endian bytes (missing ones are zero, excess ones ignored), *)
(* big-endian words, one word *)
FromBytes(r, b) == Put(r, ToLE(FromLE(Take(b, IF Len(b) < w THEN Len(b) ELSE w)), w))
WordsBE(ws) == RevBytes(Concat([i \in 1..Len(ws) |-> BytesBE(ws[i])]))   \* little-endian bytes of big-endian words
FromWords(r, ws) == FromBytes(r, WordsBE(ws))
FromWord(r, x) == Put(r, BytesLE(x) \o Zeros(w - 4))

SetBit(r, k)   == PutNum(r, IF BitAt(V(r), k) = 1 THEN V(r) ELSE NatPlus(V(r), PowerOf2(k)))
ClearBit(r, k) == PutNum(r, IF BitAt(V(r), k) = 0 THEN V(r) ELSE NatMinus(V(r), PowerOf2(k)))
SetWord(r, k, x) == Put(r, [i \in 1..w |-> IF i \in (4*k + 1)..(4*k + 4) THEN BytesLE(x)[i - 4*k] ELSE reg[r][i]])
ShlWords(r, k) == PutNum(r, NatTimes(V(r), PowerOf2(32 * k)))
Shr1(r)        == PutNum(r, Quot(V(r), <<2>>))
Neg(r)         == Put(r, [i \in 1..w |-> 255 - reg[r][i]])
XorOf(r, s)    == ToLE(NatXor(V(r), V(s)), w)
AndOf(r, s)    == ToLE(NatAnd(V(r), V(s)), w)
Sum(r, s)      == NatPlus(V(r), V(s))
Carry(r, s)    == ~Less(Sum(r, s), M)
Diff(r, s)     == IF Less(V(r), V(s)) THEN NatMinus(NatPlus(V(r), M), V(s)) ELSE NatMinus(V(r), V(s))
Borrow(r, s)   == Less(V(r), V(s))
Swap(f, r, s)  == reg' = (IF f THEN [reg EXCEPT ![r] = reg[s], ![s] = reg[r]] ELSE reg) /\ UNCHANGED w
=============================================================================
