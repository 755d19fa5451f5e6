------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 as Caligo writes and reads it.  Text is a sequence of ASCII  *)
(* codes.                                                                       *)
EXTENDS Bytes

LOCAL Common == [i \in 1..26 |-> 64 + i] \o [i \in 1..26 |-> 96 + i] \o [i \in 1..10 |-> 47 + i]
(* alphabets: 0 "+/", 1 "+,", 2 "-_" *)
Alphabet(cs) == Common \o (CASE cs = 0 -> <<43, 47>> [] cs = 1 -> <<43, 44>> [] cs = 2 -> <<45, 95>>)
Alph == TLCEval([cs \in 0..2 |-> Alphabet(cs)])
LineBlocks == 19           \* 76 characters
NL == 10
Eq == 61

LOCAL Quad(a, v) == << a[(v \div 262144) + 1], a[((v \div 4096) % 64) + 1], a[((v \div 64) % 64) + 1], a[(v % 64) + 1] >>
(* the group of three bytes from index i, missing bytes as zero *)
LOCAL Group(d, i) == d[i] * 65536 + (IF i + 1 <= Len(d) THEN d[i+1] * 256 ELSE 0) + (IF i + 2 <= Len(d) THEN d[i+2] ELSE 0)

Encode(d, newlines, omit, cs) ==
  LET a == Alph[cs]
      full == Len(d) \div 3
      rest == Len(d) % 3
      body == Concat([g \in 1..full |-> Quad(a, Group(d, 3 * g - 2)) \o (IF newlines /\ g % LineBlocks = 0 THEN <<NL>> ELSE <<>>)])
      tail == IF rest = 0 THEN <<>>
              ELSE Take(Quad(a, Group(d, 3 * full + 1)), rest + 1) \o (IF omit THEN <<>> ELSE Rep(Eq, 3 - rest))
  IN  body \o tail \o (IF newlines THEN <<NL>> ELSE <<>>)

(* value of a character in any of the alphabets, or -1 *)
ValueOf(ch) == IF ch \in 65..90 THEN ch - 65 ELSE IF ch \in 97..122 THEN ch - 71 ELSE IF ch \in 48..57 THEN ch + 4
               ELSE IF ch \in {43, 45} THEN 62 ELSE IF ch \in {44, 47, 95} THEN 63 ELSE -1
LOCAL ValTab == TLCEval([ch \in 0..255 |-> ValueOf(ch)])

(* everything outside the alphabets is skipped; an incomplete group at the end  *)
(* gives the whole bytes it holds                                               *)
Decode(text) ==
  LET v == SelectSeq([i \in 1..Len(text) |-> ValTab[text[i]]], LAMBDA x: x >= 0)
      n == Len(v)
      at(i) == IF i <= n THEN v[i] ELSE 0
      word(g) == at(4*g-3) * 262144 + at(4*g-2) * 4096 + at(4*g-1) * 64 + at(4*g)
      bytes(g) == LET w == word(g) IN << w \div 65536, (w \div 256) % 256, w % 256 >>
      full == n \div 4
      rest == n % 4
  IN  Concat([g \in 1..full |-> bytes(g)]) \o (IF rest < 2 THEN <<>> ELSE Take(bytes(full + 1), rest - 1))
=============================================================================
