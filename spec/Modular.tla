------------------------------ MODULE Modular -------------------------------
(* Registers holding residues of one odd modulus: what Montgomery arithmetic    *)
(* has to compute.  R = 2^bits is the Montgomery radix.                          *)
EXTENDS BigNat
CONSTANT Regs
VARIABLES bits, n, reg
mvars == << bits, n, reg >>
MInit == bits = 0 /\ n = One /\ reg = [r \in Regs |-> Zero]
Start(b, m) == bits' = b /\ n' = m /\ reg' = [r \in Regs |-> Zero]
RR == PowerOf2(bits)
Mod(x) == Rem(x, n)
Put(r, x) == reg' = [reg EXCEPT ![r] = Mod(x)] /\ UNCHANGED << bits, n >>
In(r, x) == Put(r, x)
AddMod(r, s, t) == Put(r, NatPlus(reg[s], reg[t]))
MulMod(r, s, t) == Put(r, NatTimes(reg[s], reg[t]))
ExpMod(r, s, x) == Put(r, PowerMod(reg[s], x, n))
(* the constants of a modulus m for radix 2^b *)
IsNegInverse(m, b, x) == Rem(NatTimes(m, x), PowerOf2(b)) = NatMinus(PowerOf2(b), One)
RadixPower(m, b, k) == Rem(PowerOf2(b * k), m)
(* y = v / R mod n, canonical *)
IsReduction(v, y) == Less(y, n) /\ Mod(NatTimes(y, RR)) = Mod(v)
=============================================================================
