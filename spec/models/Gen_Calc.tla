------------------------------ MODULE Gen_Calc ------------------------------
(* Programs for the calculator: loads of edge values and operations on them.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
R == 1..3
Class == {"zero", "one", "max", "max-1", "top", "low32", "word", "alt", "carry", "rand", "rand2", "sparse", "near"}
InPlace == {"AddEq", "SubEq", "XorEq", "AndEq"}
Ternary == {"Plus", "Minus", "Xor"}
Query == {"Mul", "Eq", "Lt"}
Unary == {"Shl", "Shr1", "Neg", "SetBit", "ClearBit", "SetWord"}
UQuery == {"MulWord", "Square", "Bit", "GetWord", "Bytes", "Text", "Reduce", "Slice", "Convert"}
VARIABLES hist, loaded
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ loaded = 0
Next == /\ Len(hist) < Depth
        /\ \/ \E r \in R, c \in Class : loaded' = loaded + 1 /\ Log([op |-> "Load", r |-> r, c |-> c])
           \/ loaded > 1 /\ UNCHANGED loaded
              /\ \/ \E o \in InPlace, r, s \in R : Log([op |-> o, r |-> r, s |-> s])
                 \/ \E o \in Ternary, r, s, t \in R : Log([op |-> o, r |-> r, s |-> s, t |-> t])
                 \/ \E o \in Query, s, t \in R : Log([op |-> o, s |-> s, t |-> t])
                 \/ \E o \in Unary, r \in R : Log([op |-> o, r |-> r])
                 \/ \E o \in UQuery, s \in R : Log([op |-> o, s |-> s])
                 \/ \E r, s \in R, f \in {0, 1} : r # s /\ Log([op |-> "Swap", r |-> r, s |-> s, f |-> f])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
