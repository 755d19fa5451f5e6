---------------------------- MODULE Trace_Cipher ----------------------------
(* Recorded calls of AES, GCM, CTR and ChaCha20.                               *)
EXTENDS GCM, ChaCha, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ctxs == 1..6
Zero == Zeros(8)
Refused == << <<>>, Zeros(16) >>

(* k: round keys; the initial value of a context is kept as its J0 *)
SealOf(k, j0, n, pt, aad) ==
  LET j == TLCEval(ForMessage(j0, n))
      ct == TLCEval(GcmCrypt(k, j, pt))
  IN  << ct, GcmTag(k, j, aad, ct) >>
OpenOf(k, j0, n, ct, aad, tag) ==
  LET j == TLCEval(ForMessage(j0, n))
  IN  << GcmCrypt(k, j, ct), GcmTag(k, j, aad, ct) = tag >>
AcceptedIv(j0) == j0 # <<>>

(* a stream: key, nonce, counter of the block the position lies in, and the position within that block *)
ChaBytes(s, n) == ChaChaStream(s.key, s.nonce, s.first, s.pos, n)
ChaFar(s, hi, n) == [s EXCEPT !.first = Add(@, hi * 2^18 + (s.pos + n) \div 64), !.pos = (s.pos + n) % 64]
ChaForward(s, n) == ChaFar(s, 0, n)

VARIABLES ctx, str, sched, tid, l
G == INSTANCE GcmSession WITH Inc <- Inc64, Accepted <- AcceptedIv, Seal <- SealOf, Open <- OpenOf
S == INSTANCE Streams WITH None <- [key |-> <<>>, nonce |-> <<>>, first |-> 1, pos |-> 0],
                           Bytes <- ChaBytes, Forward <- ChaForward, Mix <- XorBytes
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ G!GInit /\ S!SInit
        /\ sched = [c \in Ctxs |-> <<>>]
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0
Key(k) == TLCEval(KeyExpansion(k))

(* --- AES blocks --- *)
OnAesKey == /\ IsEvent("AesKey") /\ UNCHANGED << ctx, str >>
            /\ IF Len(E.key) = E.bits \div 8 THEN OK /\ sched' = [sched EXCEPT ![E.c] = Key(E.key)]
               ELSE E.exc = 1 /\ UNCHANGED sched
OnAesEnc == IsEvent("AesEnc") /\ OK /\ UNCHANGED << ctx, str, sched >> /\ E.out = AesBlock(sched[E.c], E.in)

(* --- GCM --- *)
OnGcmNew == /\ IsEvent("GcmNew") /\ UNCHANGED << str, sched >>
            /\ IF Len(E.key) = E.bits \div 8
               THEN OK /\ LET k == Key(E.key) IN G!Create(E.c, k, IF IvOK(E.iv) THEN TLCEval(J0(k, E.iv)) ELSE <<>>)
               ELSE E.exc = 1 /\ UNCHANGED ctx
OnGcmEnc == IsEvent("GcmEnc") /\ OK /\ UNCHANGED << str, sched >> /\ G!Encrypt(E.c, E.in, E.aad, E.out, E.tag)
OnGcmDec == IsEvent("GcmDec") /\ OK /\ UNCHANGED << str, sched >> /\ G!Decrypt(E.c, E.in, E.aad, E.tag, E.out, E.ok)
(* harness may place the public message number *)
OnGcmNum == IsEvent("GcmNum") /\ OK /\ UNCHANGED << str, sched >> /\ (IF E.set THEN G!SetNumber(E.c, E.n) ELSE UNCHANGED ctx)

(* a ciphertext t followed by nt zero bytes, additional data a followed by na zero bytes: the context decrypts it, and *)
(* a copy of the context encrypts the result; of the plaintext only some windows are recorded *)
Windows(k, j, t) ==
  \A i \in 1..Len(E.w) : LET w == E.w[i] IN
     w.b = XorBytes(KeyStreamAt(k, j, w.at[1], w.at[2], Len(w.b)),
                    [x \in 1..Len(w.b) |-> IF w.at[1] = 0 /\ w.at[2] + x <= Len(t) THEN t[w.at[2] + x] ELSE 0])
OnGcmLong == /\ IsEvent("GcmLong") /\ OK /\ UNCHANGED << str, sched >> /\ G!Advance(E.c)
             /\ LET k == ctx[E.c].key
                    j == TLCEval(ForMessage(ctx[E.c].iv, ctx[E.c].n))
                    tag == TLCEval(GcmTagZeros(k, j, E.a, E.na, E.t, E.nt))
                IN  /\ E.ok = (E.tag = tag)
                    /\ E.both => E.outtag = tag /\ E.same
                    /\ E.len = << E.nt[1] + (Len(E.t) + E.nt[2]) \div 2^24, (Len(E.t) + E.nt[2]) % 2^24 >>
                    /\ Windows(k, j, E.t)

(* --- CTR: one message = initial value xor number, counter incremented before each block --- *)
OnCtrNew == /\ IsEvent("CtrNew") /\ UNCHANGED << str, sched >>
            /\ IF Len(E.key) = E.bits \div 8 /\ Len(E.iv) = 16 THEN OK /\ G!Create(E.c, Key(E.key), E.iv)
               ELSE E.exc = 1 /\ UNCHANGED ctx
OnCtr == /\ IsEvent("Ctr") /\ OK /\ UNCHANGED << str, sched >> /\ G!Advance(E.c)
         /\ E.out = XorBytes(E.in, KeyStream(ctx[E.c].key, ForMessage(ctx[E.c].iv, ctx[E.c].n), Len(E.in)))
(* the key stream itself is public too, and is a message of zeros *)
OnCtrStream == /\ IsEvent("CtrStream") /\ OK /\ UNCHANGED << str, sched >>
               /\ IF ~E.set THEN UNCHANGED ctx
                  ELSE G!Advance(E.c) /\ E.out = KeyStream(ctx[E.c].key, ForMessage(ctx[E.c].iv, ctx[E.c].n), E.n)
OnCtrLong == /\ IsEvent("CtrLong") /\ OK /\ UNCHANGED << str, sched >> /\ G!Advance(E.c)
             /\ Windows(ctx[E.c].key, ForMessage(ctx[E.c].iv, ctx[E.c].n), <<>>)
OnCtrNum == IsEvent("CtrNum") /\ OK /\ UNCHANGED << str, sched >> /\ (IF E.set THEN G!SetNumber(E.c, E.n) ELSE UNCHANGED ctx)

(* --- ChaCha20: one continuous stream --- *)
OnChaNew == /\ IsEvent("ChaNew") /\ UNCHANGED << ctx, sched >>
            /\ IF Len(E.key) = 32 /\ Len(E.nonce) = 12
               THEN OK /\ S!Open(E.c, [key |-> E.key, nonce |-> E.nonce, first |-> 1, pos |-> 0])
               ELSE E.exc = 1 /\ UNCHANGED str
OnCha == IsEvent("Cha") /\ OK /\ UNCHANGED << ctx, sched >> /\ S!Use(E.c, E.in, E.out)
(* a long run of zero bytes; of its output only some windows are recorded *)
OnChaSkip == /\ IsEvent("ChaSkip") /\ OK /\ UNCHANGED << ctx, sched >>
             /\ \A i \in 1..Len(E.w) : LET w == E.w[i] IN w.b = ChaBytes(ChaFar(str[E.c], w.at[1], w.at[2]), Len(w.b))
             /\ str' = [str EXCEPT ![E.c] = ChaFar(@, E.len[1], E.len[2])]
(* p becomes a copy of c *)
OnCopyCha == IsEvent("ChaCopy") /\ OK /\ UNCHANGED << ctx, sched >> /\ S!Fork(E.c, E.to)
OnCopyGcm == IsEvent("GcmCopy") /\ OK /\ UNCHANGED << str, sched >> /\ ctx' = [ctx EXCEPT ![E.to] = ctx[E.c]]

Next == \/ OnAesKey \/ OnAesEnc \/ OnGcmNew \/ OnGcmEnc \/ OnGcmDec \/ OnGcmNum \/ OnGcmLong \/ OnCtrNew \/ OnCtr \/ OnCtrNum \/ OnCtrLong \/ OnCtrStream
        \/ OnChaNew \/ OnCha \/ OnChaSkip \/ OnCopyCha \/ OnCopyGcm
Progress == PrintT(<<"AT", tid, l>>)

(* published values: FIPS 197 C.1; GCM specification test case 2; RFC 8439 2.3.2 *)
ASSUME AesBlock(Key([i \in 1..16 |-> i - 1]), [i \in 1..16 |-> 17 * (i - 1)])
  = << 105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90 >>
ASSUME LET k == Key(Zeros(16)) IN SealOf(k, J0(k, Zeros(12)), Zeros(8), Zeros(16), <<>>)
  = << << 3,136,218,206,96,182,163,146,243,40,194,185,113,178,254,120 >>, << 171,110,71,212,44,236,19,189,245,58,103,178,18,87,189,223 >> >>
(* runs of zeros by powers of H, against the definition *)
ASSUME LET k == Key([i \in 1..16 |-> 3 * i])  j == [i \in 1..16 |-> 5 * i]
       IN  \A na \in {0, 5, 16, 37}, nt \in {0, 3, 16, 50} :
             /\ GcmTagZeros(k, j, << 9, 8, 7 >>, << 0, na >>, << 6 >>, << 0, nt >>) = GcmTag(k, j, << 9, 8, 7 >> \o Zeros(na), << 6 >> \o Zeros(nt))
             /\ KeyStreamAt(k, j, 0, na, nt) = Cut(KeyStream(k, j, na + nt), na + 1, nt)
ASSUME Take(ChaChaBlock([i \in 1..32 |-> i - 1], << 0,0,0,9,0,0,0,74,0,0,0,0 >>, 1), 8) = << 16, 241, 231, 228, 209, 59, 89, 21 >>
=============================================================================
