---------------------------- MODULE KeySchedule -----------------------------
(* The TLS 1.3 key schedule (RFC 8446 section 7) as Caligo offers it: secrets  *)
(* are values; every derivation is a function of a secret and its arguments    *)
(* and leaves all secrets as they are.                                         *)
(*                                                                             *)
(* X(h, salt, ikm), EL(h, secret, label, context, len) and EmptyHash(h) are    *)
(* HKDF-Extract, HKDF-Expand-Label and the digest of nothing: parameters, so   *)
(* that the same schedule is model checked symbolically and bound to the code  *)
(* with the real functions.                                                    *)
EXTENDS Naturals, Sequences

CONSTANTS Ids
CONSTANTS X(_, _, _), EL(_, _, _, _, _), EmptyHash(_), HLen(_), ZerosOf(_)
VARIABLES sec       \* id -> [h: hash, v: secret], or [h: "none"]

KInit == sec = [i \in Ids |-> [h |-> "none"]]
Live(i) == sec[i].h # "none"
HashOf(i) == sec[i].h
Derived(h, s) == EL(h, s, "derived", EmptyHash(h), HLen(h))

(* --- secrets --- *)
Early(h) == X(h, ZerosOf(h), ZerosOf(h))
HandshakeSecret(i, h, shared) == sec' = [sec EXCEPT ![i] = [h |-> h, v |-> X(h, Derived(h, Early(h)), shared)]]
MasterSecret(i, j) == /\ Live(i)
                      /\ sec' = [sec EXCEPT ![j] = [h |-> HashOf(i), v |-> X(HashOf(i), Derived(HashOf(i), sec[i].v), ZerosOf(HashOf(i)))]]
(* application_traffic_secret_N+1 *)
UpdateSecret(i, j) == /\ Live(i)
                      /\ sec' = [sec EXCEPT ![j] = [h |-> HashOf(i), v |-> EL(HashOf(i), sec[i].v, "traffic upd", <<>>, HLen(HashOf(i)))]]
(* a secret made from given bytes (a traffic secret to be updated) *)
FromBytes(i, h, b) == sec' = [sec EXCEPT ![i] = [h |-> h, v |-> b]]

(* --- derivations --- *)
TrafficLabel(client, hs) == IF client THEN (IF hs THEN "c hs traffic" ELSE "c ap traffic")
                                      ELSE (IF hs THEN "s hs traffic" ELSE "s ap traffic")
Traffic(i, th, client, hs) == EL(HashOf(i), sec[i].v, TrafficLabel(client, hs), th, HLen(HashOf(i)))
RecordKey(i, th, client, hs, n) == EL(HashOf(i), Traffic(i, th, client, hs), "key", <<>>, n)
RecordIv(i, th, client, hs, n)  == EL(HashOf(i), Traffic(i, th, client, hs), "iv", <<>>, n)
Finished(i, th, client) == EL(HashOf(i), Traffic(i, th, client, TRUE), "finished", <<>>, HLen(HashOf(i)))
Exporter(i, th)   == EL(HashOf(i), sec[i].v, "exp master", th, HLen(HashOf(i)))
Resumption(i, th) == EL(HashOf(i), sec[i].v, "res master", th, HLen(HashOf(i)))
=============================================================================
