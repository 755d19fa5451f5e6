----------------------------- MODULE Gen_Stream -----------------------------
(* Calls on two stream contexts and their copies: pieces around the block size  *)
(* and the end of the block, in every order.                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
B == 64
VARIABLES pos, hist
Init == pos = << 0, 0 >> /\ hist = <<>>
(* pieces relative to what is left of the block *)
Pieces(p) == LET left == B - (p % B) IN {0, 1, left - 1, left, left + 1, left + B, B, 2 * B + 1}
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in 1..2 : \E n \in Pieces(pos[c]), d \in 0..1 :
                 pos' = [pos EXCEPT ![c] = @ + n] /\ hist' = Append(hist, [act |-> "Use", c |-> c, dec |-> d, n |-> n])
           \/ \E c \in 1..2 : pos' = [pos EXCEPT ![3 - c] = pos[c]] /\ hist' = Append(hist, [act |-> "Copy", c |-> c, n |-> 0, dec |-> 0])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
