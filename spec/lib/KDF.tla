-------------------------------- MODULE KDF ---------------------------------
(* RFC 2104 (HMAC), RFC 5869 (HKDF), RFC 8446 section 7.1 (HKDF-Expand-Label). *)
EXTENDS Hashes

HMAC(a, key, text) ==
  LET b  == BlockLen(a)
      k0 == IF Len(key) > b THEN Digest(a, key) ELSE key
      k  == TLCEval(k0 \o Zeros(b - Len(k0)))
  IN  Digest(a, XorBytes(k, Rep(92, b)) \o Digest(a, XorBytes(k, Rep(54, b)) \o text))

Extract(a, salt, ikm) == HMAC(a, salt, ikm)

(* T(1) | T(2) | ... cut to n bytes; n <= 255 * DigestLen(a) *)
Expand(a, prk, info, n) ==
  LET r == FoldLeft(LAMBDA acc, i: LET t == HMAC(a, prk, acc.t \o info \o <<i>>)
                                   IN  TLCEval([t |-> t, out |-> acc.out \o t]),
                    [t |-> <<>>, out |-> <<>>], Iota(CeilDiv(n, DigestLen(a))))
  IN  Take(r.out, n)

LOCAL Tls13Prefix == << 116, 108, 115, 49, 51, 32 >>               \* "tls13 "
ExpandLabel(a, secret, label, context, n) ==
  Expand(a, secret, U16BE(n) \o << 6 + Len(label) >> \o Tls13Prefix \o label
                    \o << Len(context) >> \o context, n)
=============================================================================
