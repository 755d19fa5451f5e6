---------------------------- MODULE Trace_Random ----------------------------
(* Recorded draws and fills of the random source (C26). *)
EXTENDS Generator, Integers, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, g
Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = Fresh
E == Traces[tid][l]
Step(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ l' = l + 1 /\ tid' = tid /\ E.exc = 0
OnInject == Step("Inject") /\ g' = [g EXCEPT !.tv = E.in]
OnDraw == Step("Draw") /\ LET d == TLCEval(Draws(g, E.n, <<>>)) IN E.out = d.v /\ g' = d.g
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
(* every byte of the buffer is from the draws, in order; nothing outside it changed *)
OnFill == /\ Step("Fill") /\ E.intact
          /\ LET bytes == E.n * (E.bits \div 8)  d == TLCEval(Filled(g, bytes)) IN
               E.out = SubSeq(Flat(d.v), 1, bytes) /\ g' = d.g
(* long runs, of which the draws of some positions (from 0) are recorded: one by one or as a buffer *)
OnLong == /\ Step("Long") /\ g.tv = <<>> /\ E.intact
          /\ \A i \in 1..Len(E.w) : Draw(Jump(g, E.w[i].at)).v = E.w[i].b
          /\ g' = Jump(g, E.n)
(* Several threads at once: out[t] is what thread t got, in its order.  There is an    *)
(* order of all these draws that keeps the order of each thread and in which they are   *)
(* the next draws of the generator.  (Values differ, so that order can be built forwards.) *)
RECURSIVE Merge(_, _, _, _)
Merge(s, out, next, n) ==
  IF n = 0 THEN [ok |-> TRUE, g |-> s]
  ELSE LET d == TLCEval(Draw(s))
           mine == {t \in 1..Len(out) : next[t] <= Len(out[t]) /\ out[t][next[t]] = d.v}
       IN  IF mine = {} THEN [ok |-> FALSE, g |-> s]
           ELSE LET t == CHOOSE t \in mine : TRUE IN Merge(d.g, out, TLCEval([next EXCEPT ![t] = @ + 1]), n - 1)
OnThreads == /\ Step("Threads")
             /\ Len(E.out) = E.threads /\ \A t \in 1..E.threads : Len(E.out[t]) = E.n
             /\ LET m == TLCEval(Merge(g, E.out, [t \in 1..E.threads |-> 1], E.threads * E.n)) IN m.ok /\ g' = m.g
Next == OnInject \/ OnLong \/ OnDraw \/ OnFill \/ OnThreads
ASSUME \A n \in {0, 1, 2, 3, 7, 20} : Jump(Fresh, n) = Draws(Fresh, n, <<>>).g
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
