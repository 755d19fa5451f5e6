------------------------------- MODULE Trust --------------------------------
(* What a trust decision may and must answer.  Certificates are given abstractly:  *)
(* S(c), I(c) subject and issuer name, Issued(c, d): c is properly issued by d,      *)
(* At(c, t): c is valid at time t.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS S(_), I(_), Issued(_, _), At(_, _)
(* one more link: presented certificates issued (by name and signature) by a member *)
Grow(list, known) == known \cup {k \in 1..Len(list) : \E j \in known : I(list[k]) = S(list[j]) /\ Issued(list[k], list[j])}
RECURSIVE Close(_, _)
Close(list, known) == LET g == Grow(list, known) IN IF g = known THEN known ELSE Close(list, g)
(* all = presented certificates followed by the store's; indices of those with a complete chain into the store *)
Backed(list, store) == LET all == list \o store IN Close(all, {k \in 1..Len(all) : k > Len(list)})
MayTrust(list, store, t) == Len(list) > 0 /\ At(list[1], t) /\ 1 \in Backed(list, store)
(* A chain whose names are unambiguous: every name on it belongs to one of the backed       *)
(* certificates only (copies of it do not matter), and no presented certificate on it bears *)
(* the name of a trusted one.  (Rivals that are properly issued under the same name may win.) *)
Alone(all, nl, backed, k) == \A j \in backed : S(all[j]) = S(all[k]) => all[j] = all[k] /\ (k <= nl => j <= nl)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(all, nl, backed, k) ==
  /\ Alone(all, nl, backed, k)
  /\ \/ k > nl
     \/ \E j \in backed \ {k} : I(all[k]) = S(all[j]) /\ Issued(all[k], all[j]) /\ ChainFrom(all, nl, backed \ {k}, j)
MustTrust(list, store, t) ==
  /\ MayTrust(list, store, t)
  /\ LET all == list \o store IN ChainFrom(all, Len(list), Backed(list, store), 1)
=============================================================================
