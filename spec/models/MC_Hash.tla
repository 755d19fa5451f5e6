------------------------------ MODULE MC_Hash -------------------------------
(* Design of the incremental hash objects: a Merkle-Damgard object that       *)
(* buffers a partial block of B units and compresses full ones, with padding  *)
(* of one marker and an L-unit length on a copy when read.  Checked for every *)
(* cutting of every message up to MaxLen: what the object would report is the *)
(* digest of the concatenation (refinement to HashObject), reading changes    *)
(* nothing and copies are independent.                                        *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

CONSTANTS B, L, MaxLen, Sym
Objs == {1, 2}
None == "none"

(* the abstract digest: the list of blocks of the padded message *)
Pad(m) == LET z == (B - ((Len(m) + 1 + L) % B)) % B
          IN  m \o <<"mark">> \o [i \in 1..z |-> "zero"] \o [i \in 1..L |-> <<"len", Len(m)>>]
Blocks(p) == [i \in 1..(Len(p) \div B) |-> SubSeq(p, B*(i-1)+1, B*i)]
D(a, m) == Blocks(Pad(m))

VARIABLES alg, data,      \* HashObject
          chain, buf, n   \* the design: compressed blocks, buffered units, length
INSTANCE HashObject
vars == << alg, data, chain, buf, n >>

Init == /\ alg = [o \in Objs |-> IF o = 1 THEN "h" ELSE None] /\ data = [o \in Objs |-> <<>>]
        /\ chain = [o \in Objs |-> <<>>] /\ buf = [o \in Objs |-> <<>>] /\ n = [o \in Objs |-> 0]

(* one call of add: fill the buffer, compress, repeat *)
RECURSIVE Absorb(_, _, _)
Absorb(c, b, d) ==
  IF Len(b) + Len(d) < B THEN << c, b \o d >>
  ELSE Absorb(Append(c, b \o SubSeq(d, 1, B - Len(b))), <<>>, SubSeq(d, B - Len(b) + 1, Len(d)))

DoAdd(o, d) == /\ Add(o, d)
               /\ LET r == Absorb(chain[o], buf[o], d)
                  IN  chain' = [chain EXCEPT ![o] = r[1]] /\ buf' = [buf EXCEPT ![o] = r[2]]
               /\ n' = [n EXCEPT ![o] = @ + Len(d)]

(* the digest the design computes: mark, zeros to the length field (in this or *)
(* the next block), length *)
DesignDigest(o) ==
  LET b1 == Append(buf[o], "mark")
      fits == Len(b1) + L <= B
      z(k) == [i \in 1..k |-> "zero"]
      len == [i \in 1..L |-> <<"len", n[o]>>]
  IN  IF fits THEN Append(chain[o], b1 \o z(B - L - Len(b1)) \o len)
      ELSE chain[o] \o << b1 \o z(B - Len(b1)), z(B - L) \o len >>

DoCopy(o, p) == /\ o # p /\ Copy(o, p)
                /\ chain' = [chain EXCEPT ![p] = chain[o]]
                /\ buf' = [buf EXCEPT ![p] = buf[o]] /\ n' = [n EXCEPT ![p] = n[o]]

Pieces == UNION {[1..k -> Sym] : k \in 0..MaxLen}
Next == \/ \E o \in Objs : \E d \in Pieces : Len(data[o]) + Len(d) <= MaxLen /\ DoAdd(o, d)
        \/ DoCopy(1, 2)
Spec == Init /\ [][Next]_vars

Refines == \A o \in Objs : alg[o] # None => DesignDigest(o) = D(alg[o], data[o])
BufferOK == \A o \in Objs : Len(buf[o]) < B /\ n[o] = Len(data[o])
=============================================================================
