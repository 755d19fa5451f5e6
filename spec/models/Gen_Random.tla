----------------------------- MODULE Gen_Random -----------------------------
(* Histories of the random source: test values are injected, values drawn, buffers *)
(* filled, by one thread or several.                                                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLE hist
Log(e) == hist' = Append(hist, e)
Init == hist = <<>>
Pick(S) == RandomElement(S)
Inject == Log([op |-> "Inject", n |-> Pick(0..6), bits |-> 0])
Draw == Log([op |-> "Draw", n |-> Pick(0..7), bits |-> 0])
Fill == Log([op |-> "Fill", n |-> Pick(0..20), bits |-> Pick({8, 16, 32, 64})])
Threads == Log([op |-> "Threads", n |-> Pick(0..8), bits |-> Pick({8, 16, 32, 64})])
Next == Len(hist) < Depth /\ (Inject \/ Draw \/ Fill \/ Fill \/ Threads)
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
