------------------------------ MODULE Gen_Mont ------------------------------
(* Programs over residues: conversions of edge values, operations, read-backs.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
R == 1..3
Class == {"zero", "one", "n-1", "n", "n+1", "max", "rand", "small", "half"}
Exps == {"zero", "one", "two", "max", "rand", "small", "n-1"}
VARIABLES hist, full
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ full = {}
Next == /\ Len(hist) < Depth
        /\ \/ \E r \in R, c \in Class : full' = full \cup {r} /\ Log([op |-> "In", r |-> r, c |-> c])
           \/ \E r \in R, s, t \in full, o \in {"Add", "Mul"} : full' = full \cup {r} /\ Log([op |-> o, r |-> r, s |-> s, t |-> t])
           \/ \E r \in R, s \in full, o \in {"Square", "Copy"} : full' = full \cup {r} /\ Log([op |-> o, r |-> r, s |-> s])
           \/ \E r \in R, s \in full, c \in Exps, o \in {"ExpW", "ExpB"} : full' = full \cup {r} /\ Log([op |-> o, r |-> r, s |-> s, c |-> c])
           \/ \E s \in full : UNCHANGED full /\ Log([op |-> "Out", s |-> s])
           \/ full # {} /\ UNCHANGED full /\ \E c \in {"zero", "max", "rand", "nR-1", "n"} : Log([op |-> "Redc", c |-> c])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
