----------------------------- MODULE Trace_Mont -----------------------------
(* Recorded Montgomery arithmetic (C15).  .a is the converted-back value of the *)
(* register after the operation.                                                *)
EXTENDS Modular, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
  alt           \* a second modulus with its registers, untouched by work on the first
Init == tid \in 1..Len(Traces) /\ l = 1 /\ MInit /\ alt = << 0, One, [r \in Regs |-> Zero] >>
E == Traces[tid][l]
Ev(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ E.exc = 0 /\ l' = l + 1 /\ tid' = tid
Upd(e) == Ev(e) /\ alt' = alt
Ask(e) == Upd(e) /\ UNCHANGED mvars
W(x) == ToLE(x, bits \div 8)
Shown == E.a = W(reg'[E.r])
OnState == /\ Upd("State") /\ Start(E.bits, FromLE(E.mod))
           /\ LET m == FromLE(E.mod)  b == E.bits  w(x) == ToLE(x, b \div 8) IN
                /\ "n" \in DOMAIN E => E.n = E.mod
                /\ "ninv" \in DOMAIN E => IsNegInverse(m, b, FromLE(E.ninv))
                /\ "r1" \in DOMAIN E => E.r1 = w(RadixPower(m, b, 1))
                /\ "r2" \in DOMAIN E => E.r2 = w(RadixPower(m, b, 2))
                /\ "r3" \in DOMAIN E => E.r3 = w(RadixPower(m, b, 3))
OnIn == Upd("In") /\ In(E.r, FromLE(E.in)) /\ Shown
OnCopy == Upd("Copy") /\ Put(E.r, reg[E.s]) /\ Shown
OnAdd == Upd("Add") /\ AddMod(E.r, E.s, E.t) /\ Shown
OnMul == Upd("Mul") /\ MulMod(E.r, E.s, E.t) /\ Shown
OnSquare == Upd("Square") /\ MulMod(E.r, E.s, E.s) /\ Shown
OnExpW == Upd("ExpW") /\ ExpMod(E.r, E.s, FromLE(E.x)) /\ Shown
OnExpB == Upd("ExpB") /\ ExpMod(E.r, E.s, FromLE(E.x)) /\ Shown
OnOut == Ask("Out") /\ E.a = W(reg[E.s])
OnRedc == Ask("Redc") /\ Len(E.a) = bits \div 8 /\ IsReduction(FromLE(E.in), FromLE(E.a))
OnSwap == Ev("Swap") /\ alt' = mvars /\ bits' = alt[1] /\ n' = alt[2] /\ reg' = alt[3]
Next == OnSwap \/ OnState \/ OnIn \/ OnCopy \/ OnAdd \/ OnMul \/ OnSquare \/ OnExpW \/ OnExpB \/ OnOut \/ OnRedc
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
