------------------------------- MODULE Hashes -------------------------------
(* The hash algorithms Caligo offers, by name.                               *)
EXTENDS Bytes, MD5, SHA1, SHA2, SHA3, CRC32

SecureAlgs == {"md5", "sha1", "sha224", "sha256", "sha384", "sha512",
               "sha3-224", "sha3-256", "sha3-384", "sha3-512"}
Algs == SecureAlgs \cup {"crc32"}

Digest(alg, m) ==
  CASE alg = "md5"      -> MD5(m)
    [] alg = "sha1"     -> SHA1(m)
    [] alg = "sha224"   -> SHA224(m)
    [] alg = "sha256"   -> SHA256(m)
    [] alg = "sha384"   -> SHA384(m)
    [] alg = "sha512"   -> SHA512(m)
    [] alg = "sha3-224" -> SHA3_224(m)
    [] alg = "sha3-256" -> SHA3_256(m)
    [] alg = "sha3-384" -> SHA3_384(m)
    [] alg = "sha3-512" -> SHA3_512(m)
    [] alg = "crc32"    -> Crc32(m)

DigestLen(alg) ==
  CASE alg = "md5"    -> 16 [] alg = "sha1"   -> 20
    [] alg \in {"sha224", "sha3-224"} -> 28 [] alg \in {"sha256", "sha3-256"} -> 32
    [] alg \in {"sha384", "sha3-384"} -> 48 [] alg \in {"sha512", "sha3-512"} -> 64
    [] alg = "crc32" -> 4

(* block length in the sense of HMAC: the input block, or the sponge's rate *)
BlockLen(alg) ==
  CASE alg \in {"md5", "sha1", "sha224", "sha256"} -> 64
    [] alg \in {"sha384", "sha512"} -> 128
    [] alg = "sha3-224" -> 144 [] alg = "sha3-256" -> 136
    [] alg = "sha3-384" -> 104 [] alg = "sha3-512" -> 72

(* RFC 8017 / NIST CSOR: the DER DigestInfo header in front of the digest.   *)
(* SEQUENCE { SEQUENCE { OID, NULL }, OCTET STRING }                          *)
LOCAL Oid(alg) ==
  CASE alg = "md5"      -> <<42, 134, 72, 134, 247, 13, 2, 5>>
    [] alg = "sha1"     -> <<43, 14, 3, 2, 26>>
    [] alg = "sha224"   -> <<96, 134, 72, 1, 101, 3, 4, 2, 4>>
    [] alg = "sha256"   -> <<96, 134, 72, 1, 101, 3, 4, 2, 1>>
    [] alg = "sha384"   -> <<96, 134, 72, 1, 101, 3, 4, 2, 2>>
    [] alg = "sha512"   -> <<96, 134, 72, 1, 101, 3, 4, 2, 3>>
    [] alg = "sha3-224" -> <<96, 134, 72, 1, 101, 3, 4, 2, 7>>
    [] alg = "sha3-256" -> <<96, 134, 72, 1, 101, 3, 4, 2, 8>>
    [] alg = "sha3-384" -> <<96, 134, 72, 1, 101, 3, 4, 2, 9>>
    [] alg = "sha3-512" -> <<96, 134, 72, 1, 101, 3, 4, 2, 10>>
DigestInfo(alg) ==
  LET o == Oid(alg)  h == DigestLen(alg)
  IN  <<48, Len(o) + h + 8, 48, Len(o) + 4, 6, Len(o)>> \o o \o <<5, 0, 4, h>>

(* names under which the facade offers a hash *)
AlgOfName(name) ==
  CASE name = "md5" -> "md5"
    [] name \in {"sha1", "sha"} -> "sha1"
    [] name \in {"sha224", "sha2-224"} -> "sha224"
    [] name \in {"sha256", "sha2-256"} -> "sha256"
    [] name \in {"sha384", "sha2-384"} -> "sha384"
    [] name \in {"sha512", "sha2-512"} -> "sha512"
    [] name \in {"sha3-224", "sha3-256", "sha3-384", "sha3-512"} -> name
    [] OTHER -> "none"
=============================================================================
