----------------------------- MODULE Trace_Calc -----------------------------
(* Recorded operations on bignum<Bits>.  .a (and .b) show registers after the  *)
(* operation.                                                                   *)
EXTENDS Calculator, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1 /\ CInit
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0
Upd(n) == IsEvent(n) /\ OK
Ask(n) == IsEvent(n) /\ OK /\ UNCHANGED << w, reg >>
Shown == reg'[E.r] = E.a
Two(x) == ToLE(x, 2 * w)

OnWidth == Upd("Width") /\ Width(E.bits)
OnLoad == Upd("Load") /\ FromBytes(E.r, E.in) /\ Shown
OnWords == Upd("Words") /\ FromWords(E.r, E.in) /\ Shown
OnList == Upd("List") /\ FromWords(E.r, E.in) /\ Shown
OnWord == Upd("Word") /\ FromWord(E.r, E.in) /\ Shown
OnAssignWord == Upd("AssignWord") /\ FromWord(E.r, E.in) /\ Shown
OnCopy == Upd("Copy") /\ Put(E.r, reg[E.s]) /\ Shown
OnSetBit == Upd("SetBit") /\ SetBit(E.r, E.k) /\ Shown
OnClearBit == Upd("ClearBit") /\ ClearBit(E.r, E.k) /\ Shown
OnSetWord == Upd("SetWord") /\ SetWord(E.r, E.k, E.in) /\ Shown
OnShl == Upd("Shl") /\ ShlWords(E.r, E.k) /\ Shown
OnShr1 == Upd("Shr1") /\ Shr1(E.r) /\ Shown
OnNeg == Upd("Neg") /\ Neg(E.r) /\ Shown
OnXor == Upd("Xor") /\ Put(E.r, XorOf(E.s, E.t)) /\ Shown
OnXorEq == Upd("XorEq") /\ Put(E.r, XorOf(E.r, E.s)) /\ Shown
OnAndEq == Upd("AndEq") /\ Put(E.r, AndOf(E.r, E.s)) /\ Shown
OnAddEq == Upd("AddEq") /\ E.flag = Carry(E.r, E.s) /\ PutNum(E.r, Sum(E.r, E.s)) /\ Shown
OnSubEq == Upd("SubEq") /\ E.flag = Borrow(E.r, E.s) /\ PutNum(E.r, Diff(E.r, E.s)) /\ Shown
OnPlus == Upd("Plus") /\ E.flag = Carry(E.s, E.t) /\ PutNum(E.r, Sum(E.s, E.t)) /\ Shown
OnMinus == Upd("Minus") /\ E.flag = Borrow(E.s, E.t) /\ PutNum(E.r, Diff(E.s, E.t)) /\ Shown
OnSwap == Upd("Swap") /\ Swap(E.flag, E.r, E.s) /\ Shown /\ reg'[E.s] = E.b
OnMulWord == Ask("MulWord") /\ E.out = ToLE(NatTimes(V(E.s), FromLE(BytesLE(E.in))), w + 4)
OnMul == Ask("Mul") /\ E.out = Two(NatTimes(V(E.s), V(E.t)))
OnSquare == Ask("Square") /\ E.out = Two(NatTimes(V(E.s), V(E.s)))
OnEq == Ask("Eq") /\ E.out = (reg[E.s] = reg[E.t])
OnLt == Ask("Lt") /\ E.out = Less(V(E.s), V(E.t))
OnBit == Ask("Bit") /\ E.out = BitAt(V(E.s), E.k)
OnGetWord == Ask("GetWord") /\ E.out = WordLE(reg[E.s], 4 * E.k + 1)
OnBytes == Ask("Bytes") /\ E.out = reg[E.s]
OnText == Ask("Text") /\ E.out = Text(reg[E.s])
(* register s of this width reduced modulo a number of width E.bits *)
OnReduce == /\ IsEvent("Reduce") /\ UNCHANGED << w, reg >>
            /\ LET p == FromLE(E.mod) IN
                 IF p = Zero THEN E.exc = 1 ELSE OK /\ E.out = ToLE(Rem(V(E.s), p), E.bits \div 8)
OnSlice == Ask("Slice") /\ E.out = Cut(reg[E.s], E.k \div 8 + 1, E.bits \div 8)
OnConvert == Ask("Convert") /\ E.out = ToLE(FromLE(Take(reg[E.s], IF w < E.bits \div 8 THEN w ELSE E.bits \div 8)), E.bits \div 8)
Next == \/ OnWidth \/ OnLoad \/ OnWords \/ OnList \/ OnWord \/ OnAssignWord \/ OnCopy \/ OnSetBit \/ OnClearBit \/ OnSetWord
        \/ OnShl \/ OnShr1 \/ OnNeg \/ OnXor \/ OnXorEq \/ OnAndEq \/ OnAddEq \/ OnSubEq \/ OnPlus \/ OnMinus \/ OnSwap
        \/ OnMulWord \/ OnMul \/ OnSquare \/ OnEq \/ OnLt \/ OnBit \/ OnGetWord \/ OnBytes \/ OnText \/ OnReduce \/ OnSlice \/ OnConvert
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
