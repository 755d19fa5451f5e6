------------------------------ MODULE MC_Modes ------------------------------
(* Modes over every block cipher on a two-bit block (all permutations), every   *)
(* initial value and every message of a bounded length, with a channel that may *)
(* damage one block.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Blocks, MaxLen
Perms == {f \in [Blocks -> Blocks] : \A x, y \in Blocks : f[x] = f[y] => x = y}
Enc(k, b) == k[b]
Dec(k, b) == CHOOSE x \in DOMAIN k : k[x] = b
Xor(a, b) == ((a + b) % 2) + 2 * (((a \div 2) + (b \div 2)) % 2)
M == INSTANCE Modes
VARIABLES key, iv, msg, sent, sentE, hit
vars == << key, iv, msg, sent, sentE, hit >>
Msgs == UNION {[1..n -> Blocks] : n \in 0..MaxLen}
Init == /\ key \in Perms /\ iv \in Blocks /\ msg \in Msgs
        /\ sent = M!CbcEnc(key, iv, msg) /\ sentE = M!EcbEnc(key, msg) /\ hit = 0
Damage(i, d) == /\ hit = 0 /\ hit' = i
                /\ sent' = [sent EXCEPT ![i] = Xor(@, d)] /\ sentE' = [sentE EXCEPT ![i] = Xor(@, d)]
                /\ UNCHANGED << key, iv, msg >>
Next == \E i \in 1..Len(sent), d \in Blocks \ {0} : Damage(i, d)
Spec == Init /\ [][Next]_vars
OpensC == M!CbcDec(key, iv, sent)
OpensE == M!EcbDec(key, sentE)
Inverse == hit = 0 => OpensC = msg /\ OpensE = msg
LengthKept == Len(sent) = Len(msg) /\ Len(sentE) = Len(msg)
(* damage to block i is confined to blocks i and i + 1, and shows in both *)
Confined == hit # 0 => /\ \A j \in 1..Len(msg) : (OpensC[j] # msg[j]) <=> (j \in {hit, hit + 1})
                       /\ \A j \in 1..Len(msg) : (OpensE[j] # msg[j]) <=> j = hit
(* equal plaintext blocks show in ECB, always *)
Shows == hit = 0 => \A i, j \in 1..Len(msg) : (msg[i] = msg[j]) <=> (sentE[i] = sentE[j])
=============================================================================
