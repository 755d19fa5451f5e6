------------------------------ MODULE MC_Prime ------------------------------
(* Miller-Rabin with the given bases, squaring by squaring, for every odd number *)
(* between Lo and Hi: the answer is primality.                                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Lo, Hi, Bases
VARIABLES n, d, r, k, x, j, ans
vars == << n, d, r, k, x, j, ans >>
RECURSIVE Pow(_, _, _)
Pow(b, e, m) == IF e = 0 THEN 1 % m ELSE LET h == Pow(b, e \div 2, m) IN IF e % 2 = 1 THEN (((h * h) % m) * b) % m ELSE (h * h) % m
B4 == <<2, 3, 5, 7>>
IsPrime(v) == v > 1 /\ \A q \in 2..(v - 1) : q * q > v \/ v % q # 0
Init == n \in {v \in Lo..Hi : v % 2 = 1} /\ d = n - 1 /\ r = 0 /\ k = 0 /\ x = 0 /\ j = 0 /\ ans = "?"
Halve == ans = "?" /\ k = 0 /\ d % 2 = 0 /\ d' = d \div 2 /\ r' = r + 1 /\ UNCHANGED << n, k, x, j, ans >>
Next1 == ans = "?" /\ d % 2 = 1 /\ (k = 0 \/ x = 1 \/ x = n - 1)          \* this base passed (or start): next base
         /\ IF k = Len(Bases) THEN ans' = "prime" /\ UNCHANGED << n, d, r, k, x, j >>
            ELSE k' = k + 1 /\ x' = Pow(Bases[k + 1], d, n) /\ j' = 1 /\ UNCHANGED << n, d, r, ans >>
Sq == ans = "?" /\ k > 0 /\ x # 1 /\ x # n - 1
      /\ IF j < r THEN LET y == (x * x) % n IN
                        IF y = 1 THEN ans' = "composite" /\ UNCHANGED << n, d, r, k, x, j >>
                        ELSE x' = y /\ j' = j + 1 /\ UNCHANGED << n, d, r, k, ans >>
         ELSE ans' = "composite" /\ UNCHANGED << n, d, r, k, x, j >>
Next == Halve \/ Next1 \/ Sq
Spec == Init /\ [][Next]_vars
Right == (ans = "prime" => IsPrime(n)) /\ (ans = "composite" => ~IsPrime(n))
Decomposed == (n - 1) = d * 2^r
=============================================================================
