-------------------------------- MODULE Bytes -------------------------------
(* Byte sequences.                                                           *)
EXTENDS Words, SequencesExt, TLC

Byte == 0..255
Zeros(n) == [i \in 1..n |-> 0]
Rep(b, n) == [i \in 1..n |-> b]
Iota(n) == [i \in 1..n |-> i]                     \* <<1, ..., n>>
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Cut(s, from, n) == SubSeq(s, from, from + n - 1)   \* n bytes from index from
Concat(ss) == TLCEval(FoldLeft(LAMBDA acc, x: acc \o x, <<>>, ss))
CeilDiv(a, b) == (a + b - 1) \div b
RevBytes(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* lower-case hexadecimal text, as the sequence of its ASCII codes *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(s) == TLCEval([i \in 1..(2 * Len(s)) |->
                 LET b == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)])

U16BE(n) == << n \div 256, n % 256 >>              \* n < 2^16
=============================================================================
