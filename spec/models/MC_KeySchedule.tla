-------------------------- MODULE MC_KeySchedule ----------------------------
(* Symbolic check of the schedule: with Extract and Expand-Label as free        *)
(* constructors (no collisions), values derived for different purposes,         *)
(* parties, phases, transcripts or shared secrets are different, and an update  *)
(* chain never repeats a secret.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxSteps
Ids == 1..3
Hash == {"h1", "h2"}
Shared == { <<"s1">>, <<"s2">> }
TH == { <<"t1">>, <<"t2">> }
X(h, salt, ikm) == <<"X", h, salt, ikm>>
EL(h, s, label, ctx, n) == <<"EL", h, s, label, ctx, n>>
EmptyHash(h) == <<"empty", h>>
HLen(h) == IF h = "h1" THEN 32 ELSE 48
ZerosOf(h) == <<"zeros", h>>
VARIABLES sec, kind, n
K == INSTANCE KeySchedule
vars == << sec, kind, n >>

(* kind: what the secret is, as a term that determines it *)
Init == K!KInit /\ kind = [i \in Ids |-> <<"none">>] /\ n = 0
Step(act, i, k) == act /\ kind' = [kind EXCEPT ![i] = k] /\ n < MaxSteps /\ n' = n + 1
Next ==
  \/ \E i \in Ids, h \in Hash, s \in Shared : Step(K!HandshakeSecret(i, h, s), i, <<"hs", h, s>>)
  \/ \E i, j \in Ids : kind[i] # <<"none">> /\ kind[i][1] = "hs" /\ Step(K!MasterSecret(i, j), j, <<"ms", kind[i]>>)
  \/ \E i, j \in Ids : kind[i] # <<"none">> /\ Step(K!UpdateSecret(i, j), j, <<"upd", kind[i]>>)
Spec == Init /\ [][Next]_vars

(* secrets are equal exactly when they are the same secret *)
Separated == \A i, j \in Ids : kind[i] # <<"none">> /\ kind[j] # <<"none">> => (sec[i] = sec[j] <=> kind[i] = kind[j])
Derivs(i) ==
  {<<<<"traffic", c, hs, t>>, K!Traffic(i, t, c, hs)>> : c \in BOOLEAN, hs \in BOOLEAN, t \in TH}
  \cup {<<<<"key", c, hs, t>>, K!RecordKey(i, t, c, hs, 16)>> : c \in BOOLEAN, hs \in BOOLEAN, t \in TH}
  \cup {<<<<"iv", c, hs, t>>, K!RecordIv(i, t, c, hs, 12)>> : c \in BOOLEAN, hs \in BOOLEAN, t \in TH}
  \cup {<<<<"fin", c, t>>, K!Finished(i, t, c)>> : c \in BOOLEAN, t \in TH}
  \cup {<<<<"exp", t>>, K!Exporter(i, t)>> : t \in TH} \cup {<<<<"res", t>>, K!Resumption(i, t)>> : t \in TH}
KeySeparation == \A i \in Ids : kind[i] # <<"none">> =>
   LET d == Derivs(i) IN Cardinality({x[1] : x \in d}) = Cardinality({x[2] : x \in d})
=============================================================================
