------------------------------- MODULE Gen_Rsa ------------------------------
(* Sessions of signers and validators: two or three keys, signatures made by the *)
(* library or forged by an adversary who can encode anything, and validations of  *)
(* any of them under any key, message and hash.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
NK == 2
Hs == {"sha256", "sha384", "sha512"}
VARIABLES hist, made
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ made = 0
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in 1..NK, h \in Hs, m \in 1..3 : made' = made + 1 /\ Log([op |-> "Sign", k |-> k, h |-> h, m |-> m])
           \/ \E k \in 1..NK, h \in Hs, m \in 1..3, f \in 1..20 : made' = made + 1 /\ Log([op |-> "Forge", k |-> k, h |-> h, m |-> m, f |-> f])
           \/ /\ made > 0 /\ UNCHANGED made
              /\ \E w \in {"same", "same2", "same3", "other"}, k \in 1..NK, h \in Hs, m \in 1..3 : Log([op |-> "Verify", w |-> w, k |-> k, h |-> h, m |-> m])
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
