----------------------------- MODULE Trace_Parse ----------------------------
(* Recorded parses of arbitrary bytes (C23): whatever was given, the call came     *)
(* back, with a result (exc 0) or a standard exception (exc 1).  A crash, a report  *)
(* of the address sanitizer, an exceeded memory or time limit leaves another event  *)
(* or none in the trace, which no action matches.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
E == Traces[tid][l]
Step(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ l' = l + 1 /\ tid' = tid
Kinds == {"der", "pem", "bundle", "key", "keypem", "trust", "base64", "asn1"}
OnAny == Step("Any") /\ E.kind \in Kinds /\ E.exc \in {0, 1}
OnParse == Step("Parse") /\ E.exc \in {0, 1}
OnVerify == Step("Verify") /\ E.exc = 0
Next == OnAny \/ OnParse \/ OnVerify
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
