----------------------------- MODULE Trace_Rsa ------------------------------
(* Recorded RSA signing and validation (C19, C20).  Several keys are alive at a   *)
(* time; using one never changes another.                                         *)
EXTENDS RSA, LongMessages, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, keys
Init == tid \in 1..Len(Traces) /\ l = 1 /\ keys = <<>>
E == Traces[tid][l]
Key == keys[E.key]
Ev(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ E.exc = 0 /\ l' = l + 1 /\ tid' = tid
Ask(e) == Ev(e) /\ UNCHANGED keys
OnKey == Ev("Key") /\ E.key = Len(keys) + 1 /\ keys' = Append(keys, [n |-> FromBE(E.n), e |-> FromBE(E.e), d |-> FromBE(E.d)])
H15(m, alg) == Digest(alg, Wrapped(m))
OnSign == Ask("Sign") /\ E.sig = Sign15(Key, E.alg, H15(E.msg, E.alg))
OnVerify == Ask("Verify") /\ E.out = Valid15(Key, E.alg, H15(E.msg, E.alg), E.sig)
OnSignPss == Ask("SignPss") /\ E.sig = SignPss(Key, E.alg, E.msg, E.salt)          \* .msg is the message digest
OnVerifyPss == Ask("VerifyPss") /\ E.out = ValidPssSalt(Key, E.alg, Digest(E.alg, E.msg), E.sig, DigestLen(E.saltalg))
(* through the key objects, by TLS signature scheme *)
OnSchemeSign == /\ Ask("SchemeSign")
                /\ CASE SchemeKind(E.scheme) = "pkcs1" -> E.sig = Sign15(Key, SchemeAlg(E.scheme), H15(E.msg, SchemeAlg(E.scheme)))
                     [] SchemeKind(E.scheme) = "pss" -> IF FitsPss(SchemeAlg(E.scheme), Key.n)
                                                        THEN ValidPss(Key, SchemeAlg(E.scheme), Digest(SchemeAlg(E.scheme), E.msg), E.sig)
                                                        ELSE E.sig = <<>>
                     [] OTHER -> E.sig = <<>>
OnSchemeVerify == /\ Ask("SchemeVerify")
                  /\ E.out = CASE SchemeKind(E.scheme) = "pkcs1" -> Valid15(Key, SchemeAlg(E.scheme), H15(E.msg, SchemeAlg(E.scheme)), E.sig)
                               [] SchemeKind(E.scheme) = "pss" -> ValidPss(Key, SchemeAlg(E.scheme), Digest(SchemeAlg(E.scheme), E.msg), E.sig)
                               [] OTHER -> FALSE
(* a message of E.len zero bytes; E.others: acceptance for messages with one bit set, and for a shorter one *)
NoOther == \A i \in 1..Len(E.others) : ~E.others[i]
OnSignZeros == Ask("SignZeros") /\ E.sig = Sign15(Key, E.alg, WrappedZerosDigest(E.alg, E.len)) /\ E.ok /\ NoOther
OnPssZeros == Ask("PssZeros") /\ E.sig = SignPss(Key, E.alg, ZerosDigest(E.alg, E.len), E.salt) /\ E.ok /\ NoOther
(* the mask generation function alone: E.len octets asked for, E.out those from E.off on *)
OnMgf == Ask("Mgf") /\ E.size = E.len /\ E.out = MgfCut(E.alg, E.seed, E.off, Len(E.out)) /\ E.off + Len(E.out) <= E.len /\ Len(E.out) = E.cnt
Next == OnMgf \/ OnKey \/ OnSign \/ OnVerify \/ OnSignPss \/ OnVerifyPss \/ OnSchemeSign \/ OnSchemeVerify \/ OnSignZeros \/ OnPssZeros
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
