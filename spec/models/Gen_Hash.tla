------------------------------ MODULE Gen_Hash ------------------------------
(* Behaviours of hash objects at the level of block positions: where in a     *)
(* block the buffered data ends before and after each call, and how many      *)
(* whole blocks the call completes.  The classes are those at which the       *)
(* design of MC_Hash takes different paths.                                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Pos == {"start", "one", "mid", "lastfit", "nofit", "last"}
Wraps == {0, 1, 2}
Objs == {1, 2, 3}
VARIABLES live, pos, hist
vars == << live, pos, hist >>

Init == live = {1} /\ pos = [o \in Objs |-> "start"] /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Add(o, p, w) == /\ o \in live /\ pos' = [pos EXCEPT ![o] = p] /\ UNCHANGED live
                /\ Log([act |-> "Add", o |-> o, from |-> pos[o], to |-> p, w |-> w])
AddNothing(o) == /\ o \in live /\ UNCHANGED << live, pos >> /\ Log([act |-> "Empty", o |-> o])
Read(o) == o \in live /\ UNCHANGED << live, pos >> /\ Log([act |-> "Read", o |-> o])
Copy(o, p) == /\ o \in live /\ p \notin live /\ live' = live \cup {p} /\ pos' = [pos EXCEPT ![p] = pos[o]]
              /\ Log([act |-> "Copy", o |-> o, p |-> p])
Assign(o, p) == /\ o \in live /\ p \in live /\ UNCHANGED live /\ pos' = [pos EXCEPT ![p] = pos[o]]
                /\ Log([act |-> "Assign", o |-> o, p |-> p])
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in Objs, p \in Pos, w \in Wraps : Add(o, p, w)
           \/ \E o \in Objs : AddNothing(o) \/ Read(o)
           \/ \E o, p \in Objs : Copy(o, p) \/ Assign(o, p)
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson(hist))
=============================================================================
