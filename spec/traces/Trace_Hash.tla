----------------------------- MODULE Trace_Hash -----------------------------
(* Recorded histories of real hash objects, checked against HashObject with   *)
(* the real standards.                                                        *)
EXTENDS Hashes, LongDigests, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Objs == 1..8
None == "none"

(* A long message (AddLong) is represented by << -k >>, k the index of its     *)
(* length in LongLens; its digest comes from a table of independently computed *)
(* values.                                                                     *)
D(a, m) == IF Len(m) = 1 /\ m[1] < 0 THEN LongDigest(a, -m[1]) ELSE Digest(a, m)

VARIABLES alg, data, tid, l
HO == INSTANCE HashObject
vars == << alg, data, tid, l >>

Init == tid \in 1..Len(Traces) /\ l = 1 /\ HO!HInit
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0

OnNew == IsEvent("New") /\ OK /\ HO!New(E.obj, E.alg, E.in)
OnNamed == IsEvent("Named") /\ LET a == AlgOfName(E.name) IN
           IF a = None THEN E.exc = 1 /\ UNCHANGED << alg, data >>
           ELSE OK /\ HO!New(E.obj, a, E.in)
OnAdd == IsEvent("Add") /\ OK /\ HO!Add(E.obj, E.in)
OnAddLong == IsEvent("AddLong") /\ OK /\ data[E.obj] = <<>> /\ \E k \in 1..Len(LongLens) : LongLens[k] = E.len /\ HO!Add(E.obj, << -k >>)
OnRead == IsEvent("Read") /\ OK /\ HO!Read(E.obj, E.out) /\ E.conv = E.out /\ E.text = HexText(E.out)
OnCopy == IsEvent("Copy") /\ OK /\ HO!Copy(E.obj, E.to)
OnAssign == IsEvent("Assign") /\ OK /\ HO!Copy(E.obj, E.to)
(* digest size, length limit (as 31-bit halves) and DigestInfo header *)
OnInfo == /\ IsEvent("Info") /\ OK /\ UNCHANGED << alg, data >>
        /\ LET a == alg[E.obj] IN
             /\ E.size = DigestLen(a)
             /\ IF a = "crc32" THEN E.maxhi = 1 /\ E.maxlo = 2147483647
                ELSE E.maxhi = 1073741823 /\ E.maxlo = 2147483647 /\ E.asn1 = DigestInfo(a)
Next == OnNew \/ OnNamed \/ OnAdd \/ OnAddLong \/ OnRead \/ OnCopy \/ OnAssign \/ OnInfo
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
