----------------------------- MODULE Trace_X509 -----------------------------
(* Recorded parsing, verification and trust decisions (C21, C22, C25).            *)
(* slot[k]: what the parser reported for certificate k (der = <<>> when it gave    *)
(* up).  With .good the encoding is known to be well-formed and every field is     *)
(* checked against the encoding.                                                    *)
EXTENDS X509, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, slot, store
Init == tid \in 1..Len(Traces) /\ l = 1 /\ slot = [k \in {} |-> 0] /\ store = <<>>
E == Traces[tid][l]
Step(e) == l <= Len(Traces[tid]) /\ E.ev = e /\ l' = l + 1 /\ tid' = tid
Rec(x) == [der |-> x.der, subject |-> x.subject, issuer |-> x.issuer, from |-> FromLE(x.from), until |-> FromLE(x.until),
           haskey |-> x.haskey, n |-> FromLE(x.n), e |-> FromLE(x.e)]
None == [der |-> <<>>, subject |-> <<>>, issuer |-> <<>>, from |-> Zero, until |-> Zero, haskey |-> FALSE, n |-> Zero, e |-> Zero]
Faithful(x, der) == LET f == Fields(der) IN
  /\ x.der = der /\ x.serial = f.serial /\ x.subject = f.subject /\ x.issuer = f.issuer
  /\ FromLE(x.from) = f.from /\ FromLE(x.until) = f.until
  /\ x.haskey = f.haskey /\ FromLE(x.n) = f.n /\ FromLE(x.e) = f.e
PutSlot(k, r) == slot' = [j \in DOMAIN slot \cup {k} |-> IF j = k THEN r ELSE slot[j]]
(* in: the DER bytes the input stands for *)
OnParse == /\ Step("Parse") /\ UNCHANGED store
           /\ IF E.exc = 0 THEN PutSlot(E.slot, Rec(E.x)) /\ (E.x.der = E.in \/ (E.x.der = <<>> /\ ~E.good)) /\ (E.good => Faithful(E.x, E.in))
              ELSE E.exc = 1 /\ ~E.good /\ PutSlot(E.slot, None)
OnBundle == /\ Step("Bundle") /\ UNCHANGED << slot, store >> /\ E.exc = 0
            /\ Len(E.out) = Len(E.in) /\ \A k \in 1..Len(E.in) : Faithful(E.out[k], E.in[k])
(* a certificate is for the host its common name says, and for no other *)
OnApplies == /\ Step("Applies") /\ UNCHANGED << slot, store >> /\ E.exc = 0
             /\ (E.name # <<>> => E.out = (E.name = Fields(slot[E.slot].der).cn))
OnVerify == /\ Step("Verify") /\ UNCHANGED << slot, store >> /\ E.exc = 0
            /\ IF E.out THEN MayVerify(slot[E.a], slot[E.b]) ELSE ~MustVerify(slot[E.a], slot[E.b])
(* the trust store: certificates in the order added, a later one of the same subject replaces *)
Kept(st, r) == SelectSeq(st, LAMBDA x : x.subject # r.subject)
OnAdd == Step("Add") /\ E.exc = 0 /\ store' = Append(Kept(store, slot[E.slot]), slot[E.slot]) /\ UNCHANGED slot
T == INSTANCE Trust WITH S <- LAMBDA c : c.subject, I <- LAMBDA c : c.issuer,
                         Issued <- LAMBDA c, d : MustVerify(c, d),
                         At <- LAMBDA c, t : ~Less(t, c.from) /\ ~Less(c.until, t)
TMay == INSTANCE Trust WITH S <- LAMBDA c : c.subject, I <- LAMBDA c : c.issuer,
                         Issued <- LAMBDA c, d : MayVerify(c, d),
                         At <- LAMBDA c, t : ~Less(t, c.from) /\ ~Less(c.until, t)
OnTrust == /\ Step("Trust") /\ E.exc = 0 /\ UNCHANGED << slot, store >>
           /\ LET list == [k \in 1..Len(E.list) |-> slot[E.list[k]]]  t == FromLE(E.time) IN
                IF E.out THEN TMay!MayTrust(list, store, t) ELSE ~T!MustTrust(list, store, t)
OnGet == /\ Step("Get") /\ E.exc = 0 /\ UNCHANGED << slot, store >>
         /\ LET hit == {k \in 1..Len(store) : store[k].subject = E.name} IN
              IF hit = {} THEN ~E.found ELSE E.found /\ \A k \in hit : E.der = store[k].der
(* what the store holds before anything was added *)
OnBuiltin == /\ Step("Builtin") /\ E.exc = 0 /\ Faithful(E.x, E.in) /\ PutSlot(E.slot, Rec(E.x))
             /\ store' = Append(Kept(store, Rec(E.x)), Rec(E.x))
Next == OnBuiltin \/ OnParse \/ OnBundle \/ OnApplies \/ OnVerify \/ OnAdd \/ OnTrust \/ OnGet
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================
