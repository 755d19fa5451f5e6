---------------------------- MODULE Trace_X25519 ----------------------------
(* Recorded X25519 calls, key agreements and generated keys (C17). *)
EXTENDS Curve25519, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
E == Traces[tid][l]
Ask(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ E.exc = 0 /\ l' = l + 1 /\ tid' = tid
OnX == Ask("X") /\ E.out = X25519(E.k, E.u) /\ E.same
OnAgree == /\ Ask("Agree") /\ E.pa = X25519(E.k, E.u) /\ E.pb = X25519(E.j, E.u)
           /\ E.sa = X25519(E.k, E.pb) /\ E.sb = E.sa
OnNewKey == Ask("NewKey") /\ Len(E.out) = 32 /\ E.out = Clamp(E.out)
OnNormalize == Ask("Normalize") /\ E.out = Clamp(E.in)
Next == OnX \/ OnAgree \/ OnNewKey \/ OnNormalize
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
