-------------------------------- MODULE RSA ---------------------------------
(* RFC 8017 signatures.  Keys are records [n, e, d] of BigNat numbers; octet   *)
(* strings are byte sequences, big-endian.                                     *)
EXTENDS Hashes, BigNat

ModBits(n) == BitLength(n)
K(n) == CeilDiv(ModBits(n), 8)

(* DER length octets, and the message as the library signs it: the content of *)
(* a SEQUENCE is wrapped into that SEQUENCE before hashing                      *)
DerLen(len) == IF len < 128 THEN << len >>
               ELSE IF len < 256 THEN << 129, len >>
               ELSE IF len < 65536 THEN << 130 >> \o U16BE(len)
               ELSE IF len < 16777216 THEN << 131, len \div 65536 >> \o U16BE(len % 65536)
               ELSE << 132, len \div 16777216, (len \div 65536) % 256 >> \o U16BE(len % 65536)
Wrapped(m) == << 48 >> \o DerLen(Len(m)) \o m

(* 9.2 EMSA-PKCS1-v1_5; h is the digest of the wrapped message *)
T15(alg, h) == DigestInfo(alg) \o h
Fits15(alg, k) == k >= Len(DigestInfo(alg)) + DigestLen(alg) + 11
Encode15(alg, h, k) == LET t == T15(alg, h) IN << 0, 1 >> \o Rep(255, k - Len(t) - 3) \o << 0 >> \o t
Sign15(key, alg, h) == IF ~Fits15(alg, K(key.n)) THEN <<>>
                       ELSE ToBE(PowerMod(FromBE(Encode15(alg, h, K(key.n))), key.d, key.n), K(key.n))
Valid15(key, alg, h, sig) ==
  /\ Len(sig) = K(key.n) /\ Less(FromBE(sig), key.n) /\ Fits15(alg, K(key.n))
  /\ PowerMod(FromBE(sig), key.e, key.n) = FromBE(Encode15(alg, h, K(key.n)))

(* B.2.1 MGF1 *)
RECURSIVE MgfBlocks(_, _, _, _)
MgfBlocks(alg, seed, c, n) == IF c = n THEN <<>> ELSE Digest(alg, seed \o << 0, 0 >> \o U16BE(c)) \o MgfBlocks(alg, seed, c + 1, n)
(* the n octets of the mask after the first o *)
MgfCut(alg, seed, o, n) ==
  LET h == DigestLen(alg)
      b0 == o \div h
      b1 == (o + n + h - 1) \div h
      Ctr(v) == U16BE(v \div 65536) \o U16BE(v % 65536)
      T[b \in b0..b1] == IF b = b1 THEN <<>> ELSE Digest(alg, seed \o Ctr(b)) \o T[b + 1]
  IN  Take(Drop(TLCEval(T[b0]), o - b0 * h), n)
MGF1(alg, seed, len) == TLCEval(Take(MgfBlocks(alg, seed, 0, CeilDiv(len, DigestLen(alg))), len))

(* 9.1 EMSA-PSS with MGF1 over the same hash; sLen is that of the hash unless given *)
EmBits(n) == ModBits(n) - 1
EmLen(n) == CeilDiv(EmBits(n), 8)
LOCAL Mask(em, n) == LET z == 8 * EmLen(n) - EmBits(n) IN << em[1] % (2^(8 - z)) >> \o Drop(em, 1)
HashM(alg, mHash, salt) == Digest(alg, Zeros(8) \o mHash \o salt)
EncodePss(alg, mHash, salt, n) ==
  LET H == TLCEval(HashM(alg, mHash, salt))
      dbLen == EmLen(n) - DigestLen(alg) - 1
      DB == Zeros(dbLen - Len(salt) - 1) \o << 1 >> \o salt
  IN  Mask(XorBytes(DB, MGF1(alg, H, dbLen)) \o H \o << 188 >>, n)
FitsSalt(alg, n, sLen) == EmLen(n) >= DigestLen(alg) + sLen + 2
SignPss(key, alg, mHash, salt) == IF ~FitsSalt(alg, key.n, Len(salt)) THEN <<>>
                                  ELSE ToBE(PowerMod(FromBE(EncodePss(alg, mHash, salt, key.n)), key.d, key.n), K(key.n))
FitsPss(alg, n) == FitsSalt(alg, n, DigestLen(alg))
(* 9.1.2: checked field by field *)
VerifyPss(alg, mHash, em, n, sLen) ==
  LET hLen == DigestLen(alg)
      dbLen == EmLen(n) - hLen - 1
      z == 8 * EmLen(n) - EmBits(n)
      H == Cut(em, dbLen + 1, hLen)
      DB == TLCEval(LET x == XorBytes(Take(em, dbLen), MGF1(alg, H, dbLen)) IN << x[1] % (2^(8 - z)) >> \o Drop(x, 1))
      salt == Drop(DB, dbLen - sLen)
  IN  /\ em[Len(em)] = 188
      /\ em[1] < 2^(8 - z)
      /\ \A i \in 1..(dbLen - sLen - 1) : DB[i] = 0
      /\ DB[dbLen - sLen] = 1
      /\ H = HashM(alg, mHash, salt)
ValidPssSalt(key, alg, mHash, sig, sLen) ==
  /\ Len(sig) = K(key.n) /\ Less(FromBE(sig), key.n) /\ FitsSalt(alg, key.n, sLen)
  /\ LET m == TLCEval(PowerMod(FromBE(sig), key.e, key.n))
     IN  BitLength(m) <= 8 * EmLen(key.n) /\ VerifyPss(alg, mHash, ToBE(m, EmLen(key.n)), key.n, sLen)
ValidPss(key, alg, mHash, sig) == ValidPssSalt(key, alg, mHash, sig, DigestLen(alg))

(* TLS 1.3 signature scheme numbers *)
SchemeKind(s) == CASE s \in {1025, 1281, 1537} -> "pkcs1" [] s \in 2052..2054 -> "pss" [] s \in 2057..2059 -> "pss" [] OTHER -> "none"
SchemeAlg(s) == CASE s \in {1025, 2052, 2057} -> "sha256" [] s \in {1281, 2053, 2058} -> "sha384" [] s \in {1537, 2054, 2059} -> "sha512" [] OTHER -> "none"
=============================================================================
