----------------------------- MODULE MC_Threads -----------------------------
(* Threads that use different objects.  An operation on an object is not atomic:    *)
(* it loads a part of the object, computes, and stores it back; an object consists   *)
(* of two parts.  Whatever the interleaving, what a thread observes is what it would  *)
(* observe alone - a function of its own history only (Alone), and with a shared      *)
(* immutable table built before the threads start (Table) nothing changes.             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Ops, Depth
VARIABLES pc, obj, reg, hist, seen, table
vars == << pc, obj, reg, hist, seen, table >>
Start == << 1, 0 >>
Table == [o \in Ops |-> o * o + 1]
Apply(s, o) == << (3 * s[1] + Table[o]) % 11, (s[2] + s[1] + o) % 7 >>
RECURSIVE Run(_, _)
Run(s, h) == IF h = <<>> THEN s ELSE Run(Apply(s, Head(h)), Tail(h))
Init == /\ pc = [t \in Threads |-> << "idle", 0 >>] /\ obj = [t \in Threads |-> Start] /\ reg = [t \in Threads |-> Start]
        /\ hist = [t \in Threads |-> <<>>] /\ seen = [t \in Threads |-> <<>>] /\ table = Table
Begin(t, o) == pc[t][1] = "idle" /\ Len(hist[t]) < Depth /\ pc' = [pc EXCEPT ![t] = << "load", o >>] /\ UNCHANGED << obj, reg, hist, seen, table >>
Load(t) == pc[t][1] = "load" /\ reg' = [reg EXCEPT ![t] = obj[t]] /\ pc' = [pc EXCEPT ![t] = << "one", pc[t][2] >>] /\ UNCHANGED << obj, hist, seen, table >>
One(t) == /\ pc[t][1] = "one" /\ pc' = [pc EXCEPT ![t] = << "two", pc[t][2] >>] /\ UNCHANGED << reg, hist, seen, table >>
          /\ obj' = [obj EXCEPT ![t][1] = (3 * reg[t][1] + table[pc[t][2]]) % 11]
Two(t) == /\ pc[t][1] = "two" /\ pc' = [pc EXCEPT ![t] = << "idle", 0 >>] /\ UNCHANGED << reg, table >>
          /\ obj' = [obj EXCEPT ![t][2] = (reg[t][2] + reg[t][1] + pc[t][2]) % 7]
          /\ hist' = [hist EXCEPT ![t] = Append(@, pc[t][2])]
          /\ seen' = [seen EXCEPT ![t] = Append(@, obj'[t])]
Next == \E t \in Threads : (\E o \in Ops : Begin(t, o)) \/ Load(t) \/ One(t) \/ Two(t)
Alone == \A t \in Threads : \A k \in 1..Len(seen[t]) : seen[t][k] = Run(Start, SubSeq(hist[t], 1, k))
=============================================================================
