----------------------------- MODULE MC_Base64 ------------------------------
(* Byte-at-a-time encoder and character-at-a-time decoder (the design), against *)
(* the definitions of Base64.tla, for every input up to MaxLen bytes over a set *)
(* of edge bytes, with noise characters interspersed when decoding.             *)
EXTENDS Base64
CONSTANTS MaxLen, Vals, Noise
VARIABLES phase, d, opt, out, cnt, val, blk,        \* encoder
          pos, dec, dcnt, dval                      \* decoder
vars == << phase, d, opt, out, cnt, val, blk, pos, dec, dcnt, dval >>
Opts == [nl : BOOLEAN, omit : BOOLEAN, cs : 0..2]
Init == /\ phase = "enc" /\ d = <<>> /\ opt \in Opts /\ out = <<>> /\ cnt = 0 /\ val = 0 /\ blk = 0
        /\ pos = 0 /\ dec = <<>> /\ dcnt = 0 /\ dval = 0
A(v) == Alph[opt.cs][(v % 64) + 1]
PutByte(b) == /\ phase = "enc" /\ Len(d) < MaxLen /\ d' = Append(d, b)
              /\ LET w == (val * 256 + b) % 16777216 IN
                 IF cnt = 2
                 THEN /\ out' = out \o << A(w \div 262144), A(w \div 4096), A(w \div 64), A(w) >> \o (IF opt.nl /\ blk = LineBlocks - 1 THEN <<NL>> ELSE <<>>)
                      /\ cnt' = 0 /\ val' = 0 /\ blk' = (blk + 1) % LineBlocks
                 ELSE cnt' = cnt + 1 /\ val' = w /\ UNCHANGED << out, blk >>
              /\ UNCHANGED << phase, opt, pos, dec, dcnt, dval >>
Finish == /\ phase = "enc" /\ phase' = "dec"
          /\ out' = out \o (CASE cnt = 0 -> <<>>
                              [] cnt = 1 -> << A(val \div 4), A(val * 16) >> \o (IF opt.omit THEN <<>> ELSE <<Eq, Eq>>)
                              [] cnt = 2 -> << A(val \div 1024), A(val \div 16), A(val * 4) >> \o (IF opt.omit THEN <<>> ELSE <<Eq>>))
                    \o (IF opt.nl THEN <<NL>> ELSE <<>>)
          /\ UNCHANGED << d, opt, cnt, val, blk, pos, dec, dcnt, dval >>
TakeChar(ch) == IF ValueOf(ch) = -1 THEN UNCHANGED << dec, dcnt, dval >>
            ELSE LET w == dval * 64 + ValueOf(ch) IN
                 IF dcnt = 3 THEN dec' = dec \o << w \div 65536, (w \div 256) % 256, w % 256 >> /\ dcnt' = 0 /\ dval' = 0
                 ELSE dcnt' = dcnt + 1 /\ dval' = w /\ UNCHANGED dec
GetChar == /\ phase = "dec" /\ pos < Len(out) /\ pos' = pos + 1 /\ TakeChar(out[pos + 1])
           /\ UNCHANGED << phase, d, opt, out, cnt, val, blk >>
Next == (\E b \in Vals : PutByte(b)) \/ Finish \/ GetChar
Spec == Init /\ [][Next]_vars
Rest == CASE dcnt < 2 -> <<>> [] dcnt = 2 -> << (dval \div 16) % 256 >> [] dcnt = 3 -> << (dval \div 1024) % 256, (dval \div 4) % 256 >>
EncoderOK == phase = "dec" => out = Encode(d, opt.nl, opt.omit, opt.cs)
DecoderOK == phase = "dec" => Decode(Take(out, pos)) = dec \o Rest
RoundTrip == phase = "dec" /\ pos = Len(out) => dec \o Rest = d /\ \A ch \in Noise : Decode(<<ch>> \o out \o <<ch>>) = d
=============================================================================
