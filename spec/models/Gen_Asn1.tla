------------------------------ MODULE Gen_Asn1 ------------------------------
(* Histories of ASN.1 views: opened on a number of elements, read, peeked, tested  *)
(* for the end and copied in any order.                                             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES hist, open
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ open = {}
Open == \E v \in 1..2, n \in 0..4 : Log([op |-> "Open", v |-> v, n |-> n, w |-> 0]) /\ open' = open \cup {v}
Copy == \E v \in 1..3, w \in open : v # w /\ Log([op |-> "Copy", v |-> v, w |-> w, n |-> 0]) /\ open' = open \cup {v}
Use == \E v \in open, o \in {"Read", "Peek", "Empty", "Read"} : Log([op |-> o, v |-> v, w |-> 0, n |-> 0]) /\ UNCHANGED open
Use2 == \E v \in open : \E k \in 1..6 : Log([op |-> IF k < 5 THEN "Read" ELSE "Peek", v |-> v, w |-> k, n |-> 0]) /\ UNCHANGED open
Next == Len(hist) < Depth /\ IF hist = <<>> THEN Open ELSE (Open \/ Copy \/ Use \/ Use2)
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
