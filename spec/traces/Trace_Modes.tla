----------------------------- MODULE Trace_Modes ----------------------------
(* Recorded calls of the legacy ECB and CBC modes over two kinds of cipher: a   *)
(* small Feistel cipher on blocks of 8, 16 or 32 bytes that the harness plugs   *)
(* in, and the library's AES-128 (encryption only).                             *)
EXTENDS AES, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ctxs == 1..4

(* --- the plugged-in cipher --- *)
F(k, x, r) == [i \in 1..Len(x) |-> (x[i] * 5 + x[(i % Len(x)) + 1] + k[((i - 1 + 3 * r) % Len(k)) + 1] + r) % 256]
RECURSIVE Rounds(_,_,_,_)
Rounds(k, a, b, r) == IF r = 5 THEN a \o b ELSE Rounds(k, b, TLCEval(XorBytes(a, F(k, b, r))), r + 1)
RECURSIVE Back(_,_,_,_)
Back(k, a, b, r) == IF r = 0 THEN a \o b ELSE Back(k, TLCEval(XorBytes(b, F(k, a, r))), a, r - 1)
Half1(x) == Take(x, Len(x) \div 2)
Half2(x) == Drop(x, Len(x) \div 2)
EncOf(k, x) == IF k.aes THEN AesBlock(k.rk, x) ELSE TLCEval(Rounds(k.rk, Half1(x), Half2(x), 1))
DecOf(k, x) == TLCEval(Back(k.rk, Half1(x), Half2(x), 4))
M == INSTANCE Modes WITH Enc <- EncOf, Dec <- DecOf, Xor <- XorBytes

VARIABLES ctx, tid, l
Init == tid \in 1..Len(Traces) /\ l = 1 /\ ctx = [c \in Ctxs |-> [mode |-> "", b |-> 0, k |-> [aes |-> FALSE, rk |-> <<>>], iv |-> <<>>]]
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0
BlocksOf(s, b) == TLCEval([i \in 1..(Len(s) \div b) |-> Cut(s, (i - 1) * b + 1, b)])
KeyOf == IF E.aes THEN [aes |-> TRUE, rk |-> TLCEval(KeyExpansion(E.key))] ELSE [aes |-> FALSE, rk |-> E.key]
OnEcb == IsEvent("Ecb") /\ OK /\ ctx' = [ctx EXCEPT ![E.c] = [mode |-> "ecb", b |-> E.b, k |-> KeyOf, iv |-> <<>>]]
OnCbc == /\ IsEvent("Cbc")
         /\ IF Len(E.iv) = E.b THEN OK /\ ctx' = [ctx EXCEPT ![E.c] = [mode |-> "cbc", b |-> E.b, k |-> KeyOf, iv |-> E.iv]]
            ELSE E.exc = 1 /\ UNCHANGED ctx
OnEnc == LET x == ctx[E.c] IN
         /\ IsEvent("Enc") /\ OK /\ UNCHANGED ctx
         /\ E.out = Concat(IF x.mode = "ecb" THEN M!EcbEnc(x.k, BlocksOf(E.in, x.b)) ELSE M!CbcEnc(x.k, x.iv, BlocksOf(E.in, x.b)))
OnDec == LET x == ctx[E.c] IN
         /\ IsEvent("Dec") /\ OK /\ UNCHANGED ctx
         /\ E.out = Concat(IF x.mode = "ecb" THEN M!EcbDec(x.k, BlocksOf(E.in, x.b)) ELSE M!CbcDec(x.k, x.iv, BlocksOf(E.in, x.b)))
Next == OnEcb \/ OnCbc \/ OnEnc \/ OnDec
Progress == PrintT(<<"AT", tid, l>>)

(* the plugged-in cipher is one: decryption inverts encryption *)
ASSUME \A x \in {Zeros(8), Rep(255, 16), [i \in 1..32 |-> 7 * i % 256]} :
         LET k == [aes |-> FALSE, rk |-> [i \in 1..Len(x) |-> (i * 37) % 256]] IN DecOf(k, EncOf(k, x)) = x
(* NIST SP 800-38A F.2.1, first two blocks *)
ASSUME LET k == [aes |-> TRUE, rk |-> KeyExpansion(<< 43,126,21,22,40,174,210,166,171,247,21,136,9,207,79,60 >>)]
       IN  M!CbcEnc(k, [i \in 1..16 |-> i - 1], << << 107,193,190,226,46,64,159,150,233,61,126,17,115,147,23,42 >>, << 174,45,138,87,30,3,172,156,158,183,111,172,69,175,142,81 >> >>)
           = << << 118,73,171,172,129,25,178,70,206,233,142,155,18,233,25,125 >>, << 80,134,203,155,80,114,25,238,149,219,17,58,145,118,120,178 >> >>
=============================================================================
