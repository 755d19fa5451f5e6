------------------------------ MODULE MC_Stream -----------------------------
(* The buffered realisation of a stream cipher - a block counter, a buffer with *)
(* one block of key stream and an offset into it, the buffer refilled when it   *)
(* is used up - refines Streams: for every cutting of the data into calls and   *)
(* every copy, byte p is combined with key stream byte p.  The block counter    *)
(* has Digits digits of size Base, incremented with a carry, and wraps.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS B,         \* bytes in a block
          Base, Digits, MaxCall, MaxBlocks
(* a mistake to be found, or none *)
Fault == IF "FAULT" \in DOMAIN IOEnv THEN IOEnv.FAULT ELSE "none"
Ctxs == {1, 2}
VARIABLES str, real, same, done
vars == << str, real, same, done >>
None == [key |-> 0, pos |-> 0]

(* the key stream is ideal: byte o of block b under key k is the term <<k, b, o>>; data are zeros *)
(* the block counter wraps *)
Wrap == Base^Digits
Ideal(s, n) == [i \in 1..n |-> << s.key, ((s.pos + i - 1) \div B) % Wrap, (s.pos + i - 1) % B >>]
S == INSTANCE Streams WITH Bytes <- Ideal, Forward <- LAMBDA s, n : [s EXCEPT !.pos = @ + n], Mix <- LAMBDA d, k : k

(* --- the realisation --- *)
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE d[1] + Base * Value(Tail(d))
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<>>
          ELSE IF d[1] + 1 < Base THEN << d[1] + 1 >> \o Tail(d)
          ELSE << 0 >> \o (IF Fault = "carry" /\ Len(d) = Digits - 1 THEN Tail(d) ELSE Inc(Tail(d)))
Refill(r) == [r EXCEPT !.buf = Value(r.cnt), !.cnt = Inc(r.cnt), !.off = 0]
RECURSIVE Step(_, _)
Step(r, n) == IF n = 0 THEN [r |-> r, out |-> <<>>]
              ELSE LET b == << r.key, r.buf, r.off >>
                       r1 == [r EXCEPT !.off = @ + 1]
                       r2 == IF r1.off = B THEN Refill(r1) ELSE r1
                       rest == Step(r2, n - 1)
                   IN  [r |-> rest.r, out |-> << b >> \o rest.out]
Call(r, n) == LET x == Step(r, n)
              IN  IF Fault = "drop" /\ n % B # 0 /\ x.r.off = 1 THEN [x EXCEPT !.r = Refill(@)]
                  ELSE IF Fault = "whole" /\ n > B /\ r.off # 0 THEN Step([r EXCEPT !.off = 0], n)
                  ELSE x
New(k) == Refill([key |-> k, cnt |-> [i \in 1..Digits |-> 0], buf |-> 0, off |-> 0])

Init == /\ str = [c \in Ctxs |-> [key |-> c, pos |-> 0]]
        /\ real = [c \in Ctxs |-> New(c)]
        /\ same = TRUE /\ done = 0
Use(c, n) == /\ str[c].pos + n <= B * MaxBlocks
             /\ LET x == Call(real[c], n)
                IN  /\ real' = [real EXCEPT ![c] = x.r]
                    /\ same' = (x.out = Ideal(str[c], n))
             /\ S!Use(c, [i \in 1..n |-> 0], Ideal(str[c], n)) /\ done' = done
Fork(c, d) == /\ done < 2 /\ done' = done + 1
              /\ S!Fork(c, d)
              /\ real' = [real EXCEPT ![d] = IF Fault = "copy" THEN [real[c] EXCEPT !.off = 0] ELSE real[c]]
              /\ UNCHANGED same
Next == \/ \E c \in Ctxs, n \in 0..MaxCall : Use(c, n)
        \/ \E c, d \in Ctxs : c # d /\ Fork(c, d)
Spec == Init /\ [][Next]_vars

(* what a call gives is what the stream has at that position *)
Same == same
(* the abstraction: block in the buffer and offset are the position; the counter is one ahead of the buffer *)
Abstraction == \A c \in Ctxs : /\ real[c].key = str[c].key
                               /\ real[c].buf * B + real[c].off = str[c].pos % (Wrap * B)
                               /\ Value(real[c].cnt) = (real[c].buf + 1) % Wrap /\ real[c].off < B
=============================================================================
