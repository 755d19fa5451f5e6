------------------------------- MODULE MC_Gcm -------------------------------
(* Sessions with an ideal AEAD: a sender, a receiver and a network that may     *)
(* drop, duplicate, reorder and modify messages.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxMsgs, Plain, Wrap
Ctxs == {"s", "r"}
Zero == 0
Refused == << "none", "none" >>
Inc(n) == (n + 1) % Wrap
Accepted(iv) == TRUE
(* ideal: the tag of a message is the term of everything that goes into it *)
Seal(k, iv, n, pt, aad) == << <<"ct", k, iv, n, pt>>, <<"tag", k, iv, n, pt, aad>> >>
Open(k, iv, n, ct, aad, tag) == << <<"dec", k, iv, n, ct>>, \E p \in Plain : tag = <<"tag", k, iv, n, p, aad>> /\ ct = <<"ct", k, iv, n, p>> >>
VARIABLES ctx, sent, got, nonces
G == INSTANCE GcmSession
vars == << ctx, sent, got, nonces >>
Init == /\ ctx = [c \in Ctxs |-> [key |-> "k", iv |-> "iv", n |-> Zero]]
        /\ sent = <<>> /\ got = <<>> /\ nonces = <<>>
Send(p, a) == /\ Len(sent) < MaxMsgs
              /\ LET s == Seal("k", "iv", ctx["s"].n, p, a)
                 IN  /\ G!Encrypt("s", p, a, s[1], s[2])
                     /\ sent' = Append(sent, [pt |-> p, aad |-> a, ct |-> s[1], tag |-> s[2]])
              /\ nonces' = Append(nonces, ctx["s"].n) /\ UNCHANGED got
(* the network delivers: anything sent, or a mixture of two messages *)
Recv(i, j, k) == /\ Len(got) < MaxMsgs + 1
              /\ LET ct == sent[i].ct  aad == sent[j].aad  tag == sent[k].tag
                     r == Open("k", "iv", ctx["r"].n, ct, aad, tag)
                 IN  /\ G!Decrypt("r", ct, aad, tag, r[1], r[2])
                     /\ got' = Append(got, [ok |-> r[2], i |-> i, j |-> j, k |-> k])
              /\ UNCHANGED << sent, nonces >>
Next == \/ \E p \in Plain, a \in {"a", "b"} : Send(p, a)
        \/ \E i, j, k \in 1..Len(sent) : Recv(i, j, k)
Spec == Init /\ [][Next]_vars

(* the n-th attempt succeeds exactly when it gets the n-th message, unmodified *)
InOrderOnly == \A n \in 1..Len(got) :
   (MaxMsgs < Wrap) => (got[n].ok <=> /\ got[n].i = n
                                      /\ sent[got[n].j].aad = sent[n].aad
                                      /\ sent[got[n].k].tag = sent[n].tag)
NonceUnique == MaxMsgs < Wrap => Cardinality({nonces[i] : i \in 1..Len(nonces)}) = Len(nonces)
(* no message is accepted twice *)
NoReplay == \A m, n \in 1..Len(got) : m # n /\ got[m].ok /\ got[n].ok => got[m].i # got[n].i
Steps == ctx["r"].n = Len(got) % Wrap /\ ctx["s"].n = Len(sent) % Wrap
=============================================================================
