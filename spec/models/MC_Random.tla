----------------------------- MODULE MC_Random ------------------------------
(* Threads drawing from one generator: take the lock; if there is a test value,     *)
(* read the last and remove it, else step the state twice and build the value from   *)
(* both halves; release the lock.  Every shared access is a step of its own.          *)
(* The state is the number of generator steps made; a draw is the pair of step        *)
(* numbers its halves came from, or the index of the test value.                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, PerThread, Tests
VARIABLES pc, lock, state, tests, half, tmp, got
vars == << pc, lock, state, tests, half, tmp, got >>
Init == /\ pc = [t \in Threads |-> "idle"] /\ lock = {} /\ state = 0 /\ tests = Tests
        /\ half = [t \in Threads |-> 0] /\ tmp = [t \in Threads |-> 0] /\ got = [t \in Threads |-> <<>>]
At(t, a) == pc[t] = a
Go(t, a) == pc' = [pc EXCEPT ![t] = a]
Acquire(t) == At(t, "idle") /\ Len(got[t]) < PerThread /\ lock = {} /\ lock' = {t} /\ Go(t, "look") /\ UNCHANGED << state, tests, half, tmp, got >>
Look(t) == At(t, "look") /\ Go(t, IF tests > 0 THEN "last" ELSE "load1") /\ UNCHANGED << lock, state, tests, half, tmp, got >>
Last(t) == At(t, "last") /\ tmp' = [tmp EXCEPT ![t] = tests] /\ Go(t, "pop") /\ UNCHANGED << lock, state, tests, half, got >>
Pop(t) == At(t, "pop") /\ tests' = tests - 1 /\ got' = [got EXCEPT ![t] = Append(@, <<"test", tmp[t]>>)] /\ Go(t, "free") /\ UNCHANGED << lock, state, half, tmp >>
Load(t, a, b) == At(t, a) /\ tmp' = [tmp EXCEPT ![t] = state + 1] /\ Go(t, b) /\ UNCHANGED << lock, state, tests, half, got >>
Store1(t) == At(t, "store1") /\ state' = tmp[t] /\ half' = [half EXCEPT ![t] = tmp[t]] /\ Go(t, "load2") /\ UNCHANGED << lock, tests, tmp, got >>
Store2(t) == At(t, "store2") /\ state' = tmp[t] /\ got' = [got EXCEPT ![t] = Append(@, <<"lcg", half[t], tmp[t]>>)] /\ Go(t, "free") /\ UNCHANGED << lock, tests, half, tmp >>
Release(t) == At(t, "free") /\ lock' = {} /\ Go(t, "idle") /\ UNCHANGED << state, tests, half, tmp, got >>
Step(t) == Acquire(t) \/ Look(t) \/ Last(t) \/ Pop(t) \/ Load(t, "load1", "store1") \/ Store1(t) \/ Load(t, "load2", "store2") \/ Store2(t) \/ Release(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ SF_vars(Acquire(t))
All == {<< t, k >> : t \in Threads, k \in 1..PerThread}
Have == {p \in All : p[2] <= Len(got[p[1]])}
Val(p) == got[p[1]][p[2]]
(* in the order of the stream: test values downwards, then the generator *)
Rank(v) == IF v[1] = "test" THEN Tests - v[2] + 1 ELSE Tests + v[3] \div 2
Once == \A p, q \in Have : p # q => Val(p) # Val(q)
Whole == \A p \in Have : Val(p)[1] = "lcg" => Val(p)[3] = Val(p)[2] + 1 /\ Val(p)[3] % 2 = 0
InOrder == \A p \in Have : p[2] > 1 => Rank(Val(<<p[1], p[2] - 1>>)) < Rank(Val(p))
NoGap == (lock = {}) => {Rank(Val(p)) : p \in Have} = 1..Cardinality(Have)
Done == <>(\A t \in Threads : Len(got[t]) = PerThread)
=============================================================================
