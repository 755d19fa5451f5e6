------------------------------ MODULE Streams -------------------------------
(* Stream cipher contexts.  A context is a key stream (named by its parameters) *)
(* and a position in it; a call uses the next bytes of the stream, whatever the *)
(* cutting of the data into calls, and encryption is decryption.  A copy of a   *)
(* context goes on from the same position, independently.                       *)
EXTENDS Naturals, Sequences
CONSTANTS Ctxs, None
CONSTANTS Bytes(_, _), Forward(_, _), Mix(_, _)
(* Bytes(s, n): the next n key stream bytes at s; Forward(s, n): s after n bytes; Mix: combination of data and key stream *)
VARIABLES str        \* context -> stream and position, or None

SInit == str = [c \in Ctxs |-> None]
Open(c, s) == str' = [str EXCEPT ![c] = s]
Use(c, in, out) == /\ str[c] # None
                   /\ out = Mix(in, Bytes(str[c], Len(in)))
                   /\ str' = [str EXCEPT ![c] = Forward(@, Len(in))]
Fork(c, d) == str[c] # None /\ str' = [str EXCEPT ![d] = str[c]]
=============================================================================
