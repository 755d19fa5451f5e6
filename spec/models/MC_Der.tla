------------------------------- MODULE MC_Der -------------------------------
(* The element reader as a byte-by-byte machine (tag, first length octet, further  *)
(* length octets, content) over every byte string of up to MaxLen bytes of an       *)
(* alphabet that holds every kind of length octet.  It ends, never looks outside    *)
(* the string, and delivers exactly the elements of DER.                             *)
EXTENDS DER, TLC
CONSTANTS MaxLen, Alphabet
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
VARIABLES in, pos, st, tag, more, size, out
vars == << in, pos, st, tag, more, size, out >>
Init == in \in Inputs /\ pos = 1 /\ st = "tag" /\ tag = 0 /\ more = 0 /\ size = 0 /\ out = <<>>
AtEnd == pos > Len(in)
Done == st = "tag" /\ AtEnd
Refuse == st' = "refused" /\ UNCHANGED << in, pos, tag, more, size, out >>
Tag == st = "tag" /\ ~AtEnd /\ tag' = in[pos] /\ pos' = pos + 1 /\ st' = "len" /\ UNCHANGED << in, more, size, out >>
Length == /\ st = "len"
          /\ IF AtEnd THEN Refuse
             ELSE /\ pos' = pos + 1 /\ UNCHANGED << in, tag, out >>
                  /\ IF in[pos] < 128 THEN size' = in[pos] /\ more' = 0 /\ st' = "body"
                     ELSE size' = 0 /\ more' = in[pos] - 128 /\ st' = "longlen"
LongLen == /\ st = "longlen"
           /\ IF more = 0 THEN st' = "body" /\ UNCHANGED << in, pos, tag, more, size, out >>
              ELSE IF AtEnd \/ size > 1000000 THEN Refuse
              ELSE size' = 256 * size + in[pos] /\ pos' = pos + 1 /\ more' = more - 1 /\ UNCHANGED << in, st, tag, out >>
Body == /\ st = "body"
        /\ IF size > Len(in) - (pos - 1) THEN Refuse
           ELSE /\ out' = Append(out, << tag, pos, pos + size - 1 >>) /\ pos' = pos + size /\ st' = "tag"
                /\ UNCHANGED << in, tag, more, size >>
Next == Tag \/ Length \/ LongLen \/ Body
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Wanted == ElementsFrom(in, 1, Len(in))
Good == SelectSeq(Wanted, LAMBDA e : e.ok)
InBounds == pos >= 1 /\ pos <= Len(in) + 1 /\ \A k \in 1..Len(out) : out[k][2] >= 1 /\ out[k][3] <= Len(in)
Exact == /\ Len(out) <= Len(Good)
         /\ \A k \in 1..Len(out) : out[k] = << Good[k].tag, Good[k].a, Good[k].b >>
         /\ (Done => Len(out) = Len(Wanted))
         /\ (st = "refused" => Len(out) = Len(Good) /\ Len(Wanted) = Len(Good) + 1)
Ends == <>(Done \/ st = "refused")
=============================================================================
