---------------------------- MODULE Trace_Base64 ----------------------------
EXTENDS Base64, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Init == tid \in 1..Len(Traces) /\ l = 1
E == Traces[tid][l]
IsEvent(n) == l <= Len(Traces[tid]) /\ E.ev = n /\ l' = l + 1 /\ tid' = tid
OK == E.exc = 0
OnEncode == IsEvent("Encode") /\ OK /\ E.out = Encode(E.in, E.nl, E.omit, E.cs)
OnDecode == IsEvent("Decode") /\ OK /\ E.out = Decode(E.in)
(* long data: byte i (from 0) is 7 i + i div 256; of the text its length and some characters (position from 0) are recorded *)
LongByte(i) == IF i >= E.n THEN 0 ELSE (7 * (i % 256) + (i \div 256)) % 256
TextLen == LET body == IF E.omit THEN 4 * (E.n \div 3) + (IF E.n % 3 = 0 THEN 0 ELSE (E.n % 3) + 1) ELSE 4 * CeilDiv(E.n, 3)
           IN  IF E.nl THEN body + (E.n \div 3) \div LineBlocks + 1 ELSE body
LongChar(p) ==
  LET per == 4 * LineBlocks
      lines == (E.n \div 3) \div LineBlocks                            \* full lines, each followed by a line break
      q == IF ~E.nl THEN p ELSE IF p < lines * (per + 1) THEN (p \div (per + 1)) * per + (p % (per + 1)) ELSE p - lines
      gr == q \div 4
      used == IF 3 * gr + 3 <= E.n THEN 4 ELSE E.n - 3 * gr + 1
      txt == Encode(<< LongByte(3 * gr), LongByte(3 * gr + 1), LongByte(3 * gr + 2) >>, FALSE, FALSE, E.cs)
  IN  IF E.nl /\ (p = TextLen - 1 \/ (p < lines * (per + 1) /\ p % (per + 1) = per)) THEN NL
      ELSE IF (q % 4) + 1 <= used THEN txt[(q % 4) + 1] ELSE Eq
OnEncodeLong == /\ IsEvent("EncodeLong") /\ OK /\ E.back
                /\ E.len = TextLen
                /\ \A i \in 1..Len(E.w) : \A k \in 1..Len(E.w[i].b) : E.w[i].b[k] = LongChar(E.w[i].at + k - 1)
(* encode, disturb the text with characters outside the alphabets, decode *)
OnRound == IsEvent("Round") /\ OK /\ E.out = E.in
Next == OnEncode \/ OnDecode \/ OnRound \/ OnEncodeLong
Progress == PrintT(<<"AT", tid, l>>)
ASSUME Encode(<<102,111,111,98,97>>, FALSE, FALSE, 0) = <<90,109,57,118,89,109,69,61>>
=============================================================================
