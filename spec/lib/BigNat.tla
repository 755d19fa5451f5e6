------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as little-endian byte sequences without        *)
(* trailing zeros (zero is <<>>).  The definitions go through the mathematical  *)
(* value; TLC evaluates the operators through java/BigNat.java.                 *)
EXTENDS Integers, Sequences

RECURSIVE Val(_)
Val(n) == IF n = <<>> THEN 0 ELSE n[1] + 256 * Val(Tail(n))
RECURSIVE Num(_)
Num(v) == IF v = 0 THEN <<>> ELSE << v % 256 >> \o Num(v \div 256)

FromLE(s) == Num(Val(s))                                  \* any byte sequence
FromBE(s) == FromLE([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
ToLE(n, len) == [i \in 1..len |-> IF i <= Len(n) THEN n[i] ELSE 0]      \* n mod 2^(8 len)
ToBE(n, len) == [i \in 1..len |-> IF len + 1 - i <= Len(n) THEN n[len + 1 - i] ELSE 0]
FromInt(v) == Num(v)                                      \* v in 0..2^31-1
Zero == <<>>
One == <<1>>

NatPlus(a, b)  == Num(Val(a) + Val(b))
NatMinus(a, b) == Num(Val(a) - Val(b))                       \* a >= b
NatTimes(a, b) == Num(Val(a) * Val(b))
Quot(a, b)  == Num(Val(a) \div Val(b))                    \* b # 0
Rem(a, b)   == Num(Val(a) % Val(b))                       \* b # 0
PowerOf2(k) == Num(2^k)
Less(a, b)  == Val(a) < Val(b)
BitAt(a, k) == (Val(a) \div 2^k) % 2
BitLength(a) == IF a = <<>> THEN 0 ELSE CHOOSE k \in 1..(8 * Len(a)) : 2^(k-1) <= Val(a) /\ Val(a) < 2^k
PowerMod(b, e, m) == Num((Val(b)^Val(e)) % Val(m))        \* m # 0
NatXor(a, b) == Num(CHOOSE v \in Nat : \A k \in Nat : (v \div 2^k) % 2 = (BitAt(a, k) + BitAt(b, k)) % 2)
NatAnd(a, b) == Num(CHOOSE v \in Nat : \A k \in Nat : (v \div 2^k) % 2 = BitAt(a, k) * BitAt(b, k))
IsPrime(a) == Val(a) > 1 /\ \A d \in 2..(Val(a) - 1) : Val(a) % d # 0
=============================================================================
