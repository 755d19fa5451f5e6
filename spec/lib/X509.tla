------------------------------- MODULE X509 ---------------------------------
(* Certificates: the fields a DER certificate encodes, and when one certificate  *)
(* is properly issued by another.  Times are natural numbers of seconds (BigNat). *)
EXTENDS DER, Dates, RSA

Ascii(str) == CASE str = "S#=" -> <<83,35,61>> [] str = "C=" -> <<67,61>> [] str = "L=" -> <<76,61>> [] str = "STREET=" -> <<83,84,82,69,69,84,61>>
                [] str = "ST=" -> <<83,84,61>> [] str = "E=" -> <<69,61>> [] str = "GN=" -> <<71,78,61>> [] str = "SN=" -> <<83,78,61>>
                [] str = "T=" -> <<84,61>> [] str = "O=" -> <<79,61>> [] str = "OI=" -> <<79,73,61>> [] str = "OU=" -> <<79,85,61>> [] str = "CN=" -> <<67,78,61>>
(* attribute types in the order of the text form *)
X520(n) == <<85, 4, n>>
NameOrder == << <<"S#=", X520(5)>>, <<"C=", X520(6)>>, <<"L=", X520(7)>>, <<"STREET=", X520(9)>>, <<"ST=", X520(8)>>,
                <<"E=", <<42, 134, 72, 134, 247, 13, 1, 9, 1>> >>, <<"GN=", X520(42)>>, <<"SN=", X520(4)>>, <<"T=", X520(12)>>,
                <<"O=", X520(10)>>, <<"OI=", X520(97)>>, <<"OU=", X520(11)>>, <<"CN=", X520(3)>> >>
StringTags == {12, 19, 22}
(* the attributes << oid, value >> of a Name, in encoding order *)
Attr(s, e) == LET f == TLCEval(Elements(s, e)) IN << Content(s, f[1]), Content(s, f[2]) >>
AttrsOf(s, name) == LET sets == TLCEval(Elements(s, name)) IN
  Concat(TLCEval([i \in 1..Len(sets) |-> LET in == TLCEval(Elements(s, sets[i])) IN TLCEval([j \in 1..Len(in) |-> Attr(s, in[j])])]))
(* the last value given for an attribute, empty if there is none *)
ValueOf(attrs, oid) == LET hits == TLCEval(SelectSeq(attrs, LAMBDA a : a[1] = oid)) IN IF hits = <<>> THEN <<>> ELSE hits[Len(hits)][2]
NameText(attrs) ==
  LET part(k) == LET v == ValueOf(attrs, NameOrder[k][2])
                 IN  IF v = <<>> THEN <<>> ELSE Ascii(NameOrder[k][1]) \o v \o <<32>>
      all == Concat([k \in 1..Len(NameOrder) |-> part(k)])
  IN  IF all = <<>> THEN all ELSE Take(all, Len(all) - 1)

Two(s, i) == 10 * (s[i] - 48) + s[i + 1] - 48
Seconds(y, s, i) == NatPlus(NatTimes(FromInt(Days(y, Two(s, i), Two(s, i + 2))), FromInt(86400)),
                            FromInt(3600 * Two(s, i + 4) + 60 * Two(s, i + 6) + Two(s, i + 8)))
TimeOf(s, e) ==
  LET c == Content(s, e) IN
    IF e.tag = 23 THEN Seconds((IF Two(c, 1) < 50 THEN 2000 ELSE 1900) + Two(c, 1), c, 3)
    ELSE Seconds(100 * Two(c, 1) + Two(c, 3), c, 5)

RsaOid == <<42, 134, 72, 134, 247, 13, 1, 1, 1>>
(* the fields of a well-formed version 1 or 3 certificate *)
Fields(s) ==
  LET root == Element(s, 1, Len(s))
      tbs  == Elements(s, root)[1]
      f0   == TLCEval(Elements(s, tbs))
      f    == IF f0[1].tag = 160 THEN Drop(f0, 1) ELSE f0          \* serial, algorithm, issuer, validity, subject, key, ...
      val  == TLCEval(Elements(s, f[4]))
      spki == TLCEval(Elements(s, f[6]))
      rsa  == Content(s, Elements(s, spki[1])[1]) = RsaOid
      key  == Elements(s, Element(s, spki[2].a + 1, spki[2].b))
  IN  [serial  |-> ToLE(FromBE(Content(s, f[1])), 16),
       issuer  |-> NameText(TLCEval(AttrsOf(s, f[3]))),
       subject |-> NameText(TLCEval(AttrsOf(s, f[5]))),
       cn      |-> ValueOf(TLCEval(AttrsOf(s, f[5])), X520(3)),
       from    |-> TimeOf(s, val[1]), until |-> TimeOf(s, val[2]),
       haskey  |-> rsa,
       n |-> IF rsa THEN FromBE(Content(s, key[1])) ELSE Zero,
       e |-> IF rsa THEN FromBE(Content(s, key[2])) ELSE Zero]

(* ---- proper issuance ---- *)
SigAlg(oid) == CASE oid = <<42, 134, 72, 134, 247, 13, 1, 1, 11>> -> "sha256"
                 [] oid = <<42, 134, 72, 134, 247, 13, 1, 1, 12>> -> "sha384"
                 [] oid = <<42, 134, 72, 134, 247, 13, 1, 1, 13>> -> "sha512"
                 [] OTHER -> "none"
(* The three outer parts.  .ok: they can be read and have the right types;        *)
(* .canon: moreover exactly as DER prescribes.                                     *)
Outer(s) ==
  LET no == [ok |-> FALSE, canon |-> FALSE, tbs |-> <<>>, alg |-> "none", sig |-> <<>>]
      root == Element(s, 1, Len(s)) IN
  IF ~root.ok \/ root.tag # 48 THEN no
  ELSE LET p == TLCEval(Elements(s, root)) IN
    IF Len(p) < 3 \/ ~p[1].ok \/ ~p[2].ok \/ ~p[3].ok \/ p[1].tag # 48 \/ p[2].tag # 48 \/ p[3].tag # 3 \/ p[3].b < p[3].a THEN no
    ELSE LET a == Element(s, p[2].a, p[2].b) IN
      IF ~a.ok THEN no
      ELSE [ok |-> TRUE,
            canon |-> root.canon /\ root.b = Len(s) /\ Len(p) = 3 /\ p[1].canon /\ p[2].canon /\ p[3].canon /\ a.tag = 6 /\ a.canon /\ s[p[3].a] = 0,
            tbs |-> Content(s, p[1]), alg |-> SigAlg(Content(s, a)), sig |-> SubSeq(s, p[3].a + 1, p[3].b)]
(* c: the certificate (with der, from, until); i: the issuer (haskey, n, e, from, until) *)
Within(c, i) == ~Less(c.from, i.from) /\ ~Less(i.until, c.until)
Signed(o, i) == o.alg # "none" /\ Valid15([n |-> i.n, e |-> i.e], o.alg, Digest(o.alg, Wrapped(o.tbs)), o.sig)
MayVerify(c, i)  == i.haskey /\ Within(c, i) /\ LET o == TLCEval(Outer(c.der)) IN o.ok /\ Signed(o, i)
MustVerify(c, i) == i.haskey /\ Within(c, i) /\ LET o == TLCEval(Outer(c.der)) IN o.canon /\ Signed(o, i)
=============================================================================
