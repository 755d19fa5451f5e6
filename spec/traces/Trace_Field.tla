----------------------------- MODULE Trace_Field ----------------------------
(* Recorded operations on field elements (C18).  A register is a 256-bit          *)
(* representative; the implementation may choose any representative of the        *)
(* right residue except for full reduction.                                       *)
EXTENDS Curve25519, HexText, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, reg
Init == tid \in 1..Len(Traces) /\ l = 1 /\ reg = [r \in 1..4 |-> Zero]
E == Traces[tid][l]
Upd(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ E.exc = 0 /\ l' = l + 1 /\ tid' = tid
Put(x) == Len(E.a) = 32 /\ reg' = [reg EXCEPT ![E.r] = FromLE(E.a)] /\ Congruent(FromLE(E.a), x)
Exactly(x) == E.a = ToLE(x, 32) /\ reg' = [reg EXCEPT ![E.r] = x]
OnLoad == Upd("Load") /\ Exactly(FromLE(E.in))
OnAssign == Upd("Assign") /\ Exactly(FromLE(E.in))
OnAdd == Upd("Add") /\ Put(NatPlus(reg[E.s], reg[E.t]))
OnSub == Upd("Sub") /\ Put(FSub(reg[E.s], reg[E.t]))
OnMul == Upd("Mul") /\ Put(NatTimes(reg[E.s], reg[E.t]))
OnSmall == Upd("Small") /\ Put(NatTimes(reg[E.s], FromLE(E.in)))
OnSquare == Upd("Square") /\ Put(NatTimes(reg[E.s], reg[E.s]))
OnInv == Upd("Inv") /\ Put(FInv(FMod(reg[E.s])))
OnReduce == Upd("Reduce") /\ Exactly(FMod(reg[E.r]))
OnSwap == /\ Upd("Swap") /\ reg' = (IF E.flag THEN [reg EXCEPT ![E.r] = reg[E.s], ![E.s] = reg[E.r]] ELSE reg)
          /\ E.a = ToLE(reg'[E.r], 32) /\ E.b = ToLE(reg'[E.s], 32)
OnCmp == /\ Upd("Cmp") /\ UNCHANGED reg
         /\ LET x == FMod(reg[E.s])  y == FMod(reg[E.t]) IN E.eq = (x = y) /\ E.ne = (x # y) /\ E.lt = Less(x, y)
(* an element can be written out, and wiped *)
OnText == Upd("Text") /\ UNCHANGED reg /\ E.out = Text(ToLE(reg[E.s], 32))
OnWipe == Upd("Wipe") /\ Exactly(Zero)
Next == OnText \/ OnWipe \/ OnLoad \/ OnAssign \/ OnAdd \/ OnSub \/ OnMul \/ OnSmall \/ OnSquare \/ OnInv \/ OnReduce \/ OnSwap \/ OnCmp
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
