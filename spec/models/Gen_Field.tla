------------------------------ MODULE Gen_Field -----------------------------
(* Programs over field elements; results stay unreduced and feed later steps.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
R == 1..3
Class == {"0", "1", "p-1", "p", "p+1", "2p-1", "2p", "2p+1", "max", "max-1", "2^255", "2^255-1", "rand", "small", "near", "fold", "word"}
VARIABLES hist, full
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ full = {}
Next == /\ Len(hist) < Depth
        /\ \/ \E r \in R, c \in Class : full' = full \cup {r} /\ Log([op |-> "Load", r |-> r, c |-> c])
           \/ \E r \in R, s, t \in full, o \in {"Add", "Sub", "Mul"} : full' = full \cup {r} /\ Log([op |-> o, r |-> r, s |-> s, t |-> t])
           \/ \E r \in R, s \in full, o \in {"Square", "Small", "Inv"} : full' = full \cup {r} /\ Log([op |-> o, r |-> r, s |-> s])
           \/ \E s \in full, o \in {"Text", "Wipe"} : UNCHANGED full /\ Log([op |-> o, s |-> s])
           \/ \E r \in full : UNCHANGED full /\ Log([op |-> "Reduce", r |-> r])
           \/ \E s, t \in full : UNCHANGED full /\ Log([op |-> "Cmp", s |-> s, t |-> t])
           \/ \E s, t \in full, f \in {0, 1} : s # t /\ UNCHANGED full /\ Log([op |-> "Swap", r |-> s, s |-> t, f |-> f])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
