------------------------------ MODULE Gen_Gcm -------------------------------
(* Behaviours of a sender and a receiver over a hostile network.               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Change == {"none", "none2", "ct", "aad", "tag", "ctlen", "aadlen", "swap"}
VARIABLES nsent, nrecv, hist
Init == nsent = 0 /\ nrecv = 0 /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Next ==
  /\ Len(hist) < Depth
  /\ \/ nsent < 5 /\ nsent' = nsent + 1 /\ UNCHANGED nrecv /\ Log([act |-> "Send"])
     \* deliver the message the receiver waits for, possibly modified
     \/ \E ch \in Change : nrecv < nsent /\ nrecv' = nrecv + 1 /\ UNCHANGED nsent
            /\ Log([act |-> "Recv", m |-> nrecv + 1, ch |-> ch])
     \* deliver another one: replay, reordering, skipping
     \/ \E m \in 1..nsent : m # nrecv + 1 /\ nrecv' = nrecv + 1 /\ UNCHANGED nsent
            /\ Log([act |-> "Recv", m |-> m, ch |-> "none"])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
