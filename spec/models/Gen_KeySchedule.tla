-------------------------- MODULE Gen_KeySchedule ---------------------------
(* Behaviours of the key schedule: which secrets are made from which, and what *)
(* is derived from them in which order.                                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Ids == 1..4
VARIABLES live, hist
Init == live = {} /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in Ids \ live : live' = live \cup {i} /\ (Log([act |-> "Handshake", i |-> i]) \/ Log([act |-> "FromBytes", i |-> i]))
     \/ \E i \in live, j \in Ids : live' = live \cup {j} /\ (Log([act |-> "Master", i |-> i, j |-> j]) \/ Log([act |-> "Update", i |-> i, j |-> j]))
     \/ \E i \in live, c \in BOOLEAN, hs \in BOOLEAN : UNCHANGED live
           /\ (Log([act |-> "Traffic", i |-> i, c |-> c, hs |-> hs]) \/ Log([act |-> "KeyIv", i |-> i, c |-> c, hs |-> hs]))
     \/ \E i \in live, c \in BOOLEAN : UNCHANGED live /\ Log([act |-> "Finished", i |-> i, c |-> c])
     \/ \E i \in live : UNCHANGED live /\ (Log([act |-> "Exporter", i |-> i]) \/ Log([act |-> "Resumption", i |-> i]))
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
