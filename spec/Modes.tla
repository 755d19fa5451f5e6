------------------------------- MODULE Modes --------------------------------
(* ECB and CBC (NIST SP 800-38A) over any block cipher: blocks are values, a    *)
(* message is a sequence of blocks.  Every call is one message: CBC starts from *)
(* the initial value of the context each time.                                  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Enc(_,_),     \* key, block -> block
          Dec(_,_),
          Xor(_,_)
EcbEnc(k, m) == TLCEval([i \in 1..Len(m) |-> Enc(k, m[i])])
EcbDec(k, m) == TLCEval([i \in 1..Len(m) |-> Dec(k, m[i])])
(* blocks i..j, given the block before them; halved to keep the recursion shallow *)
RECURSIVE CbcEncR(_,_,_,_,_)
CbcEncR(k, prev, m, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN << TLCEval(Enc(k, Xor(m[i], prev))) >>
  ELSE LET h == (i + j) \div 2
           a == TLCEval(CbcEncR(k, prev, m, i, h))
       IN  a \o CbcEncR(k, a[Len(a)], m, h + 1, j)
CbcEnc(k, iv, m) == TLCEval(CbcEncR(k, iv, m, 1, Len(m)))
CbcDec(k, iv, c) == TLCEval([i \in 1..Len(c) |-> Xor(Dec(k, c[i]), IF i = 1 THEN iv ELSE c[i - 1])])
=============================================================================
