------------------------------ MODULE HexText -------------------------------
EXTENDS Bytes
(* upper-case hexadecimal words, most significant first, separated by blanks *)
LOCAL UpHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Text(b) == LET n == Len(b) \div 4
               word(k) == Concat([j \in 1..4 |-> LET x == b[4 * (n - k + 1) + 1 - j] IN << UpHex(x \div 16), UpHex(x % 16) >>])
           IN  Concat([k \in 1..n |-> word(k) \o (IF k = n THEN <<>> ELSE <<32>>)])
=============================================================================
