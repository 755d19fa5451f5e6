-------------------------------- MODULE DER ---------------------------------
(* Reading tag-length-value elements out of a byte sequence.                    *)
(* Element(s, p, end): the element that starts at index p of s, within s[p..end] *)
(*   ok    - it is complete and lies within the bounds                          *)
(*   a, b  - its content is s[a..b];  next = b + 1                              *)
(*   canon - its length is in the one form DER allows                           *)
EXTENDS Bytes
LOCAL Bad == [ok |-> FALSE, tag |-> 0, a |-> 1, b |-> 0, canon |-> FALSE]
Fail(e) == ~e.ok
RECURSIVE LenValue(_, _, _, _)
LenValue(s, p, n, acc) == IF n = 0 THEN acc ELSE IF acc > 8388607 THEN 2147483647 ELSE LenValue(s, p + 1, n - 1, acc * 256 + s[p])   \* saturates at 2^31
RECURSIVE Significant(_, _, _)
Significant(s, p, n) == IF n = 0 THEN 0 ELSE IF s[p] # 0 THEN n ELSE Significant(s, p + 1, n - 1)
Element(s, p, end) ==
  IF p + 1 > end THEN Bad
  ELSE LET l0 == s[p + 1] IN
    IF l0 < 128
    THEN IF p + 1 + l0 > end THEN Bad ELSE [ok |-> TRUE, tag |-> s[p], a |-> p + 2, b |-> p + 1 + l0, canon |-> TRUE]
    ELSE LET n == l0 - 128 IN
      IF p + 1 + n > end THEN Bad
      ELSE LET len == LenValue(s, p + 2, n, 0)
               sig == Significant(s, p + 2, n)
           IN  IF len > end - (p + 1 + n) THEN Bad
               ELSE [ok |-> TRUE, tag |-> s[p], a |-> p + 2 + n, b |-> p + 1 + n + len, canon |-> n > 0 /\ sig = n /\ len > 127]
Content(s, e) == SubSeq(s, e.a, e.b)
(* the elements of s[p..end] in order, up to the first that is not complete *)
RECURSIVE ElementsFrom(_, _, _)
ElementsFrom(s, p, end) ==
  IF p > end THEN <<>>
  ELSE LET e == Element(s, p, end) IN IF ~e.ok THEN <<e>> ELSE <<e>> \o ElementsFrom(s, e.b + 1, end)
Elements(s, e) == ElementsFrom(s, e.a, e.b)
=============================================================================
