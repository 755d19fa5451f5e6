----------------------------- MODULE Trace_Prime ----------------------------
(* Recorded primality answers and generated primes (C16). *)
EXTENDS BigNat, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
E == Traces[tid][l]
Ask(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ E.exc = 0 /\ l' = l + 1 /\ tid' = tid
OnIsPrime == Ask("IsPrime") /\ E.out = IsPrime(FromLE(E.in))
OnRange == Ask("Range") /\ Len(E.out) = E.n /\ \A i \in 1..E.n : E.out[i] = IsPrime(FromInt(E.lo + i - 1))
OnGenerate == /\ Ask("Generate")
              /\ LET p == FromLE(E.out) IN
                   /\ Len(E.out) = E.bits \div 8 /\ IsPrime(p) /\ E.accepted
                   /\ BitAt(p, 0) = 1 /\ BitAt(p, E.bits - 1) = 1 /\ (E.strict => BitAt(p, E.bits - 2) = 1)
Next == OnIsPrime \/ OnRange \/ OnGenerate
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
