----------------------------- MODULE Gen_Trust ------------------------------
(* Histories of a trust store: some roots are added, then lists of certificates    *)
(* are presented.  A certificate is abstract: subject and issuer name, its own key, *)
(* the key that signed it, its validity relative to the issuer's.                   *)
(* "plan" draws a chain of some length and dresses it up.                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Names == 1..6
VARIABLES hist, list, made
Log(e) == hist' = Append(hist, e)
Init == hist = <<>> /\ list = <<>> /\ made = FALSE
Windows == {"in", "equal", "early", "late", "in2"}
Damage == {"none", "none2", "none3", "sig", "tbs", "alg", "forged"}
(* the particulars are drawn, so that every kind of step is equally likely *)
Pick(S) == RandomElement(S)
AddRoot == Log([op |-> "Root", s |-> Pick({1, 2})]) /\ UNCHANGED << list, made >>
Cert == /\ Len(list) < 6
        /\ \E s \in {Pick(1..6)} : list' = Append(list, s) /\ UNCHANGED made
             /\ Log([op |-> "Cert", s |-> s, i |-> Pick(1..6), d |-> Pick(Damage), w |-> Pick(Windows), rekey |-> Pick({0, 1, 2}) \div 2])
Chain == /\ Len(list) < 5
         /\ list' = Append(list, 6) /\ Log([op |-> "Chain", n |-> Pick(1..4), root |-> Pick({1, 2})]) /\ UNCHANGED made
Decide == list # <<>> /\ Log([op |-> "Decide", t |-> Pick({"before", "start", "mid", "mid2", "end", "after"}),
                              order |-> Pick({"as-is", "reverse", "shuffle", "target-first", "target-first2"})]) /\ made' = TRUE /\ UNCHANGED list
Clear == made /\ list' = <<>> /\ made' = FALSE /\ Log([op |-> "Clear"])
Get == Log([op |-> "Get", s |-> Pick(Names)]) /\ UNCHANGED << list, made >>
Next == Len(hist) < Depth /\ IF hist = <<>> THEN AddRoot
        ELSE (AddRoot \/ Cert \/ Chain \/ Decide \/ Clear \/ Get)
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
