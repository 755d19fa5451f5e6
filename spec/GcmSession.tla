---------------------------- MODULE GcmSession ------------------------------
(* AES-GCM and CTR contexts.  A context is a key, an initial value and the      *)
(* number of the next message; every call that processes a message, successful  *)
(* or not, advances that number by one.                                         *)
(* Crypto is a parameter: Seal(k, iv, n, pt, aad) = <<ct, tag>>,                *)
(* Open(k, iv, n, ct, aad, tag) = <<pt, ok>>, both for an accepted iv.          *)
EXTENDS Naturals, Sequences
CONSTANTS Ctxs, Zero, Refused
CONSTANTS Inc(_), Accepted(_), Seal(_, _, _, _, _), Open(_, _, _, _, _, _)
VARIABLES ctx        \* context -> [key, iv, n]

GInit == ctx = [c \in Ctxs |-> [key |-> <<>>, iv |-> <<>>, n |-> Zero]]
Create(c, k, v) == ctx' = [ctx EXCEPT ![c] = [key |-> k, iv |-> v, n |-> Zero]]
Advance(c) == ctx' = [ctx EXCEPT ![c].n = Inc(@)]
(* the message number is public: TLS resumes records at any number *)
SetNumber(c, n) == ctx' = [ctx EXCEPT ![c].n = n]

Encrypt(c, pt, aad, ct, tag) ==
  IF Accepted(ctx[c].iv) THEN Advance(c) /\ << ct, tag >> = Seal(ctx[c].key, ctx[c].iv, ctx[c].n, pt, aad)
  ELSE UNCHANGED ctx /\ << ct, tag >> = Refused
Decrypt(c, ct, aad, tag, pt, ok) ==
  IF Accepted(ctx[c].iv) THEN Advance(c) /\ << pt, ok >> = Open(ctx[c].key, ctx[c].iv, ctx[c].n, ct, aad, tag)
  ELSE UNCHANGED ctx /\ << pt, ok >> = << <<>>, FALSE >>
=============================================================================
