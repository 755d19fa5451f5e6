------------------------------ MODULE Trace_KDF -----------------------------
(* Recorded HMAC, HKDF and TLS 1.3 key schedule calls.                         *)
EXTENDS LongMacs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ids == 1..8
LabelBytes(s) ==
  CASE s = "derived" -> << 100, 101, 114, 105, 118, 101, 100 >>
    [] s = "traffic upd" -> << 116, 114, 97, 102, 102, 105, 99, 32, 117, 112, 100 >>
    [] s = "c hs traffic" -> << 99, 32, 104, 115, 32, 116, 114, 97, 102, 102, 105, 99 >>
    [] s = "c ap traffic" -> << 99, 32, 97, 112, 32, 116, 114, 97, 102, 102, 105, 99 >>
    [] s = "s hs traffic" -> << 115, 32, 104, 115, 32, 116, 114, 97, 102, 102, 105, 99 >>
    [] s = "s ap traffic" -> << 115, 32, 97, 112, 32, 116, 114, 97, 102, 102, 105, 99 >>
    [] s = "key" -> << 107, 101, 121 >>
    [] s = "iv" -> << 105, 118 >>
    [] s = "finished" -> << 102, 105, 110, 105, 115, 104, 101, 100 >>
    [] s = "exp master" -> << 101, 120, 112, 32, 109, 97, 115, 116, 101, 114 >>
    [] s = "res master" -> << 114, 101, 115, 32, 109, 97, 115, 116, 101, 114 >>
EL(h, s, label, ctx, n) == TLCEval(ExpandLabel(h, s, LabelBytes(label), ctx, n))
XX(h, salt, ikm) == TLCEval(Extract(h, salt, ikm))
EmptyHash(h) == Digest(h, <<>>)
ZerosOf(h) == Zeros(DigestLen(h))

VARIABLES sec, tid, l
K == INSTANCE KeySchedule WITH X <- XX, HLen <- DigestLen
Init == tid \in 1..Len(Traces) /\ l = 1 /\ K!KInit
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0
Fn(n) == IsEvent(n) /\ OK /\ UNCHANGED sec

OnHmac == Fn("Hmac") /\ E.out = HMAC(E.alg, E.key, E.in)
OnHmacLong == Fn("HmacLong") /\ E.out = ZerosMac(E.alg, E.n)
OnExtract == Fn("Extract") /\ E.out = Extract(E.alg, E.salt, E.ikm)
OnExpand == Fn("Expand") /\ E.out = Expand(E.alg, E.prk, E.info, E.len)
OnExpandLabel == Fn("ExpandLabel") /\ E.out = ExpandLabel(E.alg, E.prk, E.label, E.ctx, E.len)

(* the secret an event yields is shown in .out *)
Shown(i) == sec'[i].v = E.out
OnHandshake == IsEvent("Handshake") /\ OK /\ K!HandshakeSecret(E.i, E.alg, E.shared) /\ Shown(E.i)
OnFromBytes == IsEvent("FromBytes") /\ OK /\ K!FromBytes(E.i, E.alg, E.in) /\ Shown(E.i)
OnMaster == IsEvent("Master") /\ OK /\ K!MasterSecret(E.i, E.j) /\ Shown(E.j)
OnUpdate == IsEvent("Update") /\ OK /\ K!UpdateSecret(E.i, E.j) /\ Shown(E.j)
OnTraffic == Fn("Traffic") /\ E.out = K!Traffic(E.i, E.th, E.client, E.hs)
OnKeyIv == Fn("KeyIv") /\ E.key = K!RecordKey(E.i, E.th, E.client, E.hs, E.keylen) /\ E.iv = K!RecordIv(E.i, E.th, E.client, E.hs, 12)
OnFinished == Fn("Finished") /\ E.out = K!Finished(E.i, E.th, E.client)
OnExporter == Fn("Exporter") /\ E.out = K!Exporter(E.i, E.th)
OnResumption == Fn("Resumption") /\ E.out = K!Resumption(E.i, E.th)
OnSecret == Fn("Secret") /\ E.out = sec[E.i].v
Next == \/ OnHmac \/ OnHmacLong \/ OnExtract \/ OnExpand \/ OnExpandLabel \/ OnHandshake \/ OnFromBytes \/ OnMaster \/ OnUpdate
        \/ OnTraffic \/ OnKeyIv \/ OnFinished \/ OnExporter \/ OnResumption \/ OnSecret
Progress == PrintT(<<"AT", tid, l>>)

(* published values: RFC 4231 case 2, RFC 5869 case 1 *)
ASSUME HMAC("sha256", <<74,101,102,101>>, <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>)
  = << 91,220,193,70,191,96,117,78,106,4,36,38,8,149,117,199,90,0,63,8,157,39,57,131,157,236,88,185,100,236,56,67 >>
ASSUME Take(Expand("sha256", Extract("sha256", <<0,1,2,3,4,5,6,7,8,9,10,11,12>>, Rep(11, 22)), <<240,241,242,243,244,245,246,247,248,249>>, 42), 8)
  = << 60, 178, 95, 37, 250, 172, 213, 122 >>
=============================================================================
