----------------------------- MODULE Trace_Asn1 -----------------------------
(* Recorded reads of ASN.1 views (C24).  A view is its bytes and the position of   *)
(* the next element; pos = 0 once a read was refused (nothing more is promised).    *)
EXTENDS DER, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, view
Init == tid \in 1..Len(Traces) /\ l = 1 /\ view = [k \in {} |-> 0]
E == Traces[tid][l]
Step(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ l' = l + 1 /\ tid' = tid
Put(k, v) == view' = [j \in DOMAIN view \cup {k} |-> IF j = k THEN v ELSE view[j]]
V == view[E.view]
AtEnd == V.pos = Len(V.s) + 1
OnOpen == Step("Open") /\ E.exc = 0 /\ Put(E.view, [s |-> E.in, pos |-> 1])
OnCopyView == Step("CopyView") /\ E.exc = 0 /\ Put(E.view, view[E.from])
OnEmpty == Step("Empty") /\ E.exc = 0 /\ (V.pos > 0 => E.out = AtEnd) /\ UNCHANGED view
OnPeek == Step("Peek") /\ E.exc \in {0, 1} /\ UNCHANGED view
          /\ (V.pos > 0 => IF AtEnd THEN E.exc = 1 ELSE E.exc = 0 /\ E.tag = V.s[V.pos])
OnRead == /\ Step("Read") /\ E.exc \in {0, 1}
          /\ IF V.pos = 0 THEN UNCHANGED view
             ELSE LET e == Element(V.s, V.pos, Len(V.s)) IN
               IF E.exc = 1 THEN ~(e.ok /\ e.canon) /\ Put(E.view, [s |-> V.s, pos |-> 0])
               ELSE /\ e.ok /\ E.tag = e.tag /\ E.out = Content(V.s, e) /\ E.at = e.a - 1
                    /\ Put(E.view, [s |-> V.s, pos |-> e.b + 1])
(* the elements reported for a whole string, each << tag, tag peeked, offset, size >> *)
RECURSIVE Walked(_, _, _, _)
Walked(s, p, out, refused) ==
  IF p = Len(s) + 1 THEN out = <<>> /\ ~refused
  ELSE LET e == Element(s, p, Len(s)) IN
    IF out = <<>> THEN refused /\ ~(e.ok /\ e.canon)
    ELSE /\ e.ok /\ Head(out) = << e.tag, s[p], e.a - 1, e.b - e.a + 1 >>
         /\ Walked(s, e.b + 1, Tail(out), refused)
OnWalk == Step("Walk") /\ E.exc = 0 /\ Walked(E.in, 1, E.out, E.refused) /\ UNCHANGED view
(* one element with a content of E.zeros bytes or more than there are *)
OnWalkBig == /\ Step("WalkBig") /\ UNCHANGED view
             /\ LET end == Len(E.in) + E.zeros  e == Element(E.in, 1, end) IN
                  IF E.exc = 1 THEN ~(e.ok /\ e.canon)
                  ELSE E.exc = 0 /\ e.ok /\ E.tag = e.tag /\ E.at = e.a - 1 /\ E.size = e.b - e.a + 1 /\ E.empty = (e.b = end)
(* the same for sizes of 2^31 and more, as high * 2^24 + low; the length is in its shortest form, of at least four bytes *)
OnWalkHuge == /\ Step("WalkHuge") /\ UNCHANGED view
              /\ LET k == E.in[2] - 128
                     Val[i \in 2..Len(E.in)] == IF i = 2 THEN 0 ELSE (256 * Val[i - 1]) + E.in[i]
                     hi == Val[Len(E.in) - 3]
                     lo == (65536 * E.in[Len(E.in) - 2]) + (256 * E.in[Len(E.in) - 1]) + E.in[Len(E.in)]
                     fits == hi < E.zhi \/ (hi = E.zhi /\ lo <= E.zlo)
                 IN  /\ Len(E.in) = 2 + k /\ k \in 4..6
                     /\ IF ~fits THEN E.exc = 1
                        ELSE /\ E.exc = 0 /\ E.tag = E.in[1] /\ E.at = Len(E.in) /\ E.hi = hi /\ E.lo = lo
                             /\ E.empty = (hi = E.zhi /\ lo = E.zlo)
(* the names of the universal tags (X.690 8.4): BOOLEAN, INTEGER, BIT STRING, OCTET STRING, NULL, OBJECT IDENTIFIER,      *)
(* UTF8String, PrintableString, IA5String, UTCTime, GeneralizedTime, and SEQUENCE and SET, which are constructed (32)      *)
OnTags == Step("Tags") /\ E.exc = 0 /\ E.out = <<1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 32 + 16, 32 + 17>> /\ UNCHANGED view
Next == OnTags \/ OnOpen \/ OnCopyView \/ OnEmpty \/ OnPeek \/ OnRead \/ OnWalk \/ OnWalkBig \/ OnWalkHuge
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
