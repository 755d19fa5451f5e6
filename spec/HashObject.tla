----------------------------- MODULE HashObject -----------------------------
(* Incremental hash objects (MD5, SHA1, SHA2, SHA3, CRC32, and the facade     *)
(* Hash).  The abstract state of an object is the algorithm and everything    *)
(* that was added to it; what it reports is a function of that state alone.   *)
(*                                                                            *)
(* D(alg, m): the digest.  It is a parameter so that the same actions are     *)
(* model checked with an abstract digest and bound to the code with the real  *)
(* standards (Trace_Hash).                                                    *)
EXTENDS Sequences

CONSTANTS Objs, None
CONSTANT D(_, _)
VARIABLES alg,     \* object -> algorithm name, or None
          data     \* object -> all bytes added so far

hvars == << alg, data >>

HInit == /\ alg = [o \in Objs |-> None]
         /\ data = [o \in Objs |-> <<>>]

New(o, a, d) == /\ alg' = [alg EXCEPT ![o] = a]
                /\ data' = [data EXCEPT ![o] = d]

Add(o, d) == /\ alg[o] # None
             /\ data' = [data EXCEPT ![o] = @ \o d]
             /\ UNCHANGED alg

Read(o, out) == /\ alg[o] # None
                /\ out = D(alg[o], data[o])
                /\ UNCHANGED hvars

(* p becomes (or is overwritten by) a copy of o *)
Copy(o, p) == /\ alg[o] # None
              /\ alg' = [alg EXCEPT ![p] = alg[o]]
              /\ data' = [data EXCEPT ![p] = data[o]]
=============================================================================
