---------------------------- MODULE Check_BigNat ----------------------------
(* The operators of BigNat as TLC evaluates them (java/BigNat.java), against      *)
(* their values where those fit TLC's integers and against school-book            *)
(* definitions on byte sequences where they do not.  One state per pair.           *)
EXTENDS BigNat, Sequences, TLC
Small == {0, 1, 2, 3, 5, 16, 17, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 30000, 32767, 32768, 46340}
Big == { <<>>, <<1>>, <<255>>, <<0, 1>>, <<0, 0, 0, 0, 1>>, <<255, 255, 255, 255>>, <<255, 255, 255, 255, 255, 255, 255, 255>>,
         <<254, 255, 255, 255, 0, 0, 0, 128>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17>>,
         <<237, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128>> }
VARIABLES x, y, big
Init == big \in BOOLEAN /\ (IF big THEN x \in Big /\ y \in Big ELSE x \in Small /\ y \in Small)
Next == UNCHANGED << x, y, big >>
V(n) == IF n = <<>> THEN 0 ELSE n[1] + 256 * (IF Len(n) < 2 THEN 0 ELSE n[2] + 256 * (IF Len(n) < 3 THEN 0 ELSE n[3] + 256 * (IF Len(n) < 4 THEN 0 ELSE n[4])))
Norm(n) == n = <<>> \/ n[Len(n)] # 0
SmallRight == ~big =>
  LET a == FromInt(x)  b == FromInt(y) IN
  /\ Norm(a) /\ V(a) = x
  /\ V(NatPlus(a, b)) = x + y /\ V(NatTimes(a, b)) = x * y
  /\ (x >= y => V(NatMinus(a, b)) = x - y)
  /\ (y # 0 => V(Quot(a, b)) = x \div y /\ V(Rem(a, b)) = x % y)
  /\ Less(a, b) = (x < y)
  /\ \A k \in 0..17 : BitAt(a, k) = (x \div 2^k) % 2
  /\ (x > 0 => 2^(BitLength(a) - 1) <= x /\ x < 2^BitLength(a)) /\ (x = 0 => BitLength(a) = 0)
  /\ (y # 0 => LET z == ((x % y) * (x % y)) % y IN V(PowerMod(a, FromInt(3), b)) = (z * (x % y)) % y)
  /\ (x < 5000 => IsPrime(a) = (x > 1 /\ \A d \in 2..(x - 1) : x % d # 0))
  /\ \A k \in 0..16 : (V(NatXor(a, b)) \div 2^k) % 2 = ((x \div 2^k) + (y \div 2^k)) % 2
  /\ \A k \in 0..16 : (V(NatAnd(a, b)) \div 2^k) % 2 = ((x \div 2^k) % 2) * ((y \div 2^k) % 2)
  /\ \A n \in 0..4 : LET t == ToLE(a, n) IN Len(t) = n /\ V(t) = x % 256^(IF n > 3 THEN 3 ELSE n) /\ ToBE(a, n) = [i \in 1..n |-> t[n + 1 - i]]
  /\ FromLE(a \o <<0, 0>>) = a /\ FromBE([i \in 1..Len(a) |-> a[Len(a) + 1 - i]]) = a
(* school book, on bytes *)
At(n, i) == IF i <= Len(n) THEN n[i] ELSE 0
RECURSIVE CarryAt(_, _, _)
CarryAt(a, b, i) == IF i = 1 THEN 0 ELSE (At(a, i - 1) + At(b, i - 1) + CarryAt(a, b, i - 1)) \div 256
PlusB(a, b) == [i \in 1..((IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1) |-> (At(a, i) + At(b, i) + CarryAt(a, b, i)) % 256]
RECURSIVE Col(_, _, _, _)
Col(a, b, i, j) == IF j > i THEN 0 ELSE At(a, j) * At(b, i + 1 - j) + Col(a, b, i, j + 1)     \* column i of the product
RECURSIVE ColCarry(_, _, _)
ColCarry(a, b, i) == IF i = 1 THEN 0 ELSE (Col(a, b, i - 1, 1) + ColCarry(a, b, i - 1)) \div 256
TimesB(a, b) == [i \in 1..(Len(a) + Len(b)) |-> (Col(a, b, i, 1) + ColCarry(a, b, i)) % 256]
Same(n, s) == Norm(n) /\ Len(n) <= Len(s) /\ s = [i \in 1..Len(s) |-> At(n, i)]
RECURSIVE LessB(_, _, _)
LessB(a, b, i) == IF i = 0 THEN FALSE ELSE IF At(a, i) # At(b, i) THEN At(a, i) < At(b, i) ELSE LessB(a, b, i - 1)
RECURSIVE Pw(_, _, _)
Pw(a, e, m) == IF e = 0 THEN Rem(One, m) ELSE LET h == Pw(a, e \div 2, m)  s == Rem(NatTimes(h, h), m) IN IF e % 2 = 1 THEN Rem(NatTimes(s, a), m) ELSE s
BigRight == big =>
  /\ Same(NatPlus(x, y), PlusB(x, y)) /\ Same(NatTimes(x, y), TimesB(x, y))
  /\ Less(x, y) = LessB(x, y, 20)
  /\ (~Less(x, y) => NatPlus(NatMinus(x, y), y) = x)
  /\ (y # <<>> => /\ NatPlus(NatTimes(Quot(x, y), y), Rem(x, y)) = x /\ Less(Rem(x, y), y)
                  /\ \A e \in {0, 1, 2, 7, 65, 1000} : PowerMod(x, FromInt(e), y) = Pw(x, e, y))
  /\ \A k \in 0..140 : BitAt(x, k) = (At(x, (k \div 8) + 1) \div 2^(k % 8)) % 2
  /\ PowerOf2(BitLength(x)) = [i \in 1..((BitLength(x) \div 8) + 1) |-> IF i = (BitLength(x) \div 8) + 1 THEN 2^(BitLength(x) % 8) ELSE 0]
  /\ (x # <<>> => BitAt(x, BitLength(x) - 1) = 1 /\ BitLength(x) <= 8 * Len(x) /\ BitLength(x) > 8 * (Len(x) - 1))
ASSUME /\ IsPrime(<<237>> \o [i \in 1..30 |-> 255] \o <<127>>)                \* 2^255 - 19
          /\ ~IsPrime(<<239>> \o [i \in 1..30 |-> 255] \o <<127>>)
          /\ IsPrime(<<255, 255, 255, 255, 255, 255, 255, 31>>)                 \* 2^61 - 1
=============================================================================
