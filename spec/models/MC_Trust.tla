------------------------------ MODULE MC_Trust ------------------------------
(* The trust decision as the library takes it - a scan that restarts after every   *)
(* certificate it accepts or discards - for every presented list of up to MaxLen    *)
(* certificates out of a universe that contains honest ones, forged ones, re-keyed  *)
(* ones and ones that bear the name of a trusted root.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Rich
\* names 0 (empty), 1 root, 2 root2, 3 A, 4 B, 5 target; keys likewise, 9 is the attacker's
Cert(s, i, k, by, ok) == [s |-> s, i |-> i, k |-> k, by |-> by, ok |-> ok]      \* ok: validity lies within the issuer's and covers now
Root == Cert(1, 1, 1, 1, TRUE)
Root2 == Cert(2, 2, 2, 2, TRUE)
Blank == Cert(0, 0, 0, 99, FALSE)
Universe ==
  { Cert(5, 3, 5, 3, TRUE), Cert(5, 4, 5, 4, TRUE), Cert(5, 1, 5, 1, TRUE),       \* targets below A, below B, below the root
    Cert(5, 1, 5, 9, TRUE), Cert(5, 3, 9, 9, TRUE), Cert(5, 3, 5, 3, FALSE),      \* forged or outdated targets
    Cert(3, 1, 3, 1, TRUE), Cert(4, 3, 4, 3, TRUE), Cert(3, 4, 3, 4, TRUE),       \* intermediates, also a cross-signed one
    Cert(3, 1, 9, 9, TRUE), Cert(4, 3, 9, 9, TRUE), Cert(1, 1, 9, 9, TRUE),       \* forged intermediates, a forged root
    Cert(3, 3, 9, 9, TRUE), Cert(3, 1, 3, 1, FALSE) }
  \cup (IF Rich THEN { Cert(3, 1, 9, 1, TRUE), Cert(1, 2, 3, 2, TRUE), Cert(4, 2, 4, 2, TRUE), Cert(4, 4, 4, 4, TRUE), Cert(5, 5, 5, 5, TRUE), Cert(2, 1, 4, 1, TRUE), Root, Blank } ELSE {Root})
Lists == UNION {[1..n -> Universe] : n \in 0..MaxLen}
Stores == {<<Root>>, <<Root, Root2>>}
Iss(c, d) == c.by = d.k /\ c.ok
T == INSTANCE Trust WITH S <- LAMBDA c : c.s, I <- LAMBDA c : c.i, Issued <- Iss, At <- LAMBDA c, t : c.ok

VARIABLES list, store, cur, map, n, ans
vars == << list, store, cur, map, n, ans >>
Init == /\ list \in Lists /\ store \in Stores /\ cur = list /\ n = 1 /\ ans = "?"
        /\ map = [x \in {store[k].s : k \in 1..Len(store)} |-> CHOOSE c \in {store[k] : k \in 1..Len(store)} : c.s = x]
Answer(a) == ans' = a /\ UNCHANGED << list, store, cur, map, n >>
FirstOk == IF Len(list) = 0 THEN FALSE ELSE list[1].ok
Start == ans = "?" /\ ~FirstOk /\ Answer("no")
Go == ans = "?" /\ FirstOk
Scan == /\ Go
        /\ IF n > Len(cur) THEN Answer("no")
           ELSE LET c == cur[n] IN
             IF c.s \in DOMAIN map \/ c.i \notin DOMAIN map THEN n' = n + 1 /\ UNCHANGED << list, store, cur, map, ans >>
             ELSE IF Iss(c, map[c.i])
                  THEN IF n = 1 THEN Answer("yes")
                       ELSE map' = [x \in DOMAIN map \cup {c.s} |-> IF x = c.s THEN c ELSE map[x]] /\ n' = 1 /\ UNCHANGED << list, store, cur, ans >>
                  ELSE cur' = [cur EXCEPT ![n] = Blank] /\ n' = 1 /\ UNCHANGED << list, store, map, ans >>
Next == Start \/ Scan
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == ans = "yes" => T!MayTrust(list, store, 0)
Complete == ans = "no" => ~T!MustTrust(list, store, 0)
StoreSafe == \A k \in 1..Len(store) : map[store[k].s] = store[k]
Terminates == <>(ans # "?")
=============================================================================
