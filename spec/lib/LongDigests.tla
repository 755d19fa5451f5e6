---------------------------- MODULE LongDigests -----------------------------
(* Digests of long messages, computed once with an independent implementation  *)
(* (OpenSSL / zlib through Python).  The message of n bytes has, at offset i,  *)
(* the byte (131 j + 29 (j >> 8) + 7 (j >> 16)) mod 256 with j = i mod 2^20.   *)
LongLens == << "536870925", "4294967373" >>
LongTable ==
  [ a_md5 |-> <<
      <<254, 4, 111, 217, 76, 178, 106, 137, 182, 198, 115, 17, 217, 190, 174, 158>>,
      <<189, 71, 133, 22, 215, 195, 23, 193, 88, 241, 122, 144, 217, 156, 241, 3>> >>,
    a_sha1 |-> <<
      <<191, 139, 101, 24, 28, 143, 37, 130, 56, 51, 114, 157, 87, 220, 80, 143, 80, 53, 130, 153>>,
      <<215, 150, 42, 146, 12, 50, 251, 237, 209, 37, 132, 24, 230, 253, 120, 23, 177, 24, 7, 3>> >>,
    a_sha224 |-> <<
      <<68, 175, 141, 54, 243, 137, 109, 155, 17, 101, 161, 131, 172, 79, 4, 221, 17, 235, 129, 222, 203, 182, 140, 81, 200, 42, 209, 216>>,
      <<30, 159, 87, 88, 98, 248, 193, 210, 90, 53, 223, 58, 43, 171, 25, 69, 188, 70, 152, 37, 158, 59, 241, 67, 19, 67, 35, 181>> >>,
    a_sha256 |-> <<
      <<154, 210, 231, 153, 35, 201, 158, 207, 234, 104, 230, 124, 75, 116, 74, 214, 33, 164, 37, 190, 88, 41, 197, 69, 47, 40, 15, 182, 140, 157, 253, 40>>,
      <<236, 61, 153, 192, 194, 136, 114, 206, 56, 71, 10, 60, 200, 200, 214, 135, 210, 152, 144, 126, 149, 249, 90, 250, 27, 56, 187, 127, 81, 70, 82, 72>> >>,
    a_sha384 |-> <<
      <<57, 39, 51, 120, 245, 230, 109, 23, 14, 191, 255, 217, 23, 48, 103, 189, 62, 64, 94, 96, 66, 199, 97, 89, 143, 146, 115, 108, 120, 236, 71, 62, 172, 190, 225, 186, 111, 119, 122, 126, 36, 69, 165, 147, 12, 36, 17, 191>>,
      <<116, 105, 228, 177, 196, 206, 52, 81, 220, 218, 146, 107, 156, 15, 52, 117, 144, 233, 222, 191, 100, 125, 214, 107, 127, 165, 63, 55, 165, 230, 173, 60, 218, 61, 199, 139, 68, 145, 46, 64, 232, 20, 67, 243, 119, 27, 83, 106>> >>,
    a_sha512 |-> <<
      <<163, 7, 185, 74, 10, 0, 200, 186, 10, 244, 240, 160, 0, 102, 93, 90, 121, 204, 94, 228, 25, 31, 246, 113, 25, 0, 233, 183, 131, 67, 224, 136, 73, 141, 45, 241, 235, 228, 42, 187, 232, 87, 81, 45, 22, 94, 149, 225, 215, 45, 224, 116, 143, 200, 124, 221, 56, 108, 128, 50, 216, 235, 203, 157>>,
      <<179, 90, 94, 52, 241, 97, 90, 24, 233, 185, 176, 169, 187, 49, 208, 83, 46, 57, 68, 18, 1, 142, 6, 192, 24, 121, 43, 175, 206, 137, 161, 166, 216, 89, 88, 206, 255, 203, 223, 79, 78, 28, 42, 84, 113, 133, 168, 224, 106, 58, 167, 83, 145, 94, 27, 217, 254, 108, 58, 194, 253, 50, 147, 194>> >>,
    a_sha3_224 |-> <<
      <<156, 57, 210, 182, 78, 151, 79, 216, 254, 101, 3, 166, 183, 25, 4, 35, 182, 194, 164, 19, 154, 83, 153, 124, 90, 106, 183, 41>>,
      <<189, 219, 102, 65, 28, 78, 90, 142, 53, 19, 216, 240, 42, 121, 227, 102, 39, 243, 225, 255, 29, 54, 166, 52, 255, 199, 175, 99>> >>,
    a_sha3_256 |-> <<
      <<168, 233, 73, 249, 226, 32, 147, 155, 140, 108, 225, 144, 222, 101, 59, 152, 123, 65, 56, 33, 172, 255, 193, 27, 58, 8, 66, 246, 164, 38, 226, 106>>,
      <<46, 201, 70, 181, 126, 60, 10, 112, 178, 136, 69, 219, 6, 111, 83, 107, 3, 105, 81, 94, 153, 21, 153, 55, 199, 31, 158, 178, 153, 95, 113, 153>> >>,
    a_sha3_384 |-> <<
      <<29, 173, 180, 13, 90, 204, 68, 9, 49, 174, 188, 44, 131, 181, 223, 41, 240, 122, 215, 81, 72, 72, 238, 175, 121, 231, 70, 101, 229, 62, 168, 96, 191, 84, 97, 135, 184, 126, 128, 8, 190, 139, 21, 116, 108, 108, 113, 207>>,
      <<54, 89, 132, 89, 156, 153, 92, 148, 8, 77, 103, 247, 226, 55, 206, 138, 236, 57, 147, 224, 172, 91, 175, 156, 69, 121, 34, 147, 52, 20, 39, 233, 246, 232, 130, 249, 37, 79, 202, 67, 54, 187, 164, 225, 248, 96, 198, 238>> >>,
    a_sha3_512 |-> <<
      <<209, 166, 27, 66, 39, 139, 42, 218, 31, 64, 92, 160, 149, 34, 252, 247, 212, 91, 152, 163, 164, 201, 230, 102, 56, 161, 12, 241, 221, 108, 159, 114, 253, 151, 67, 247, 67, 90, 126, 244, 25, 163, 144, 228, 233, 124, 176, 59, 94, 32, 2, 150, 58, 188, 224, 205, 181, 16, 55, 122, 185, 114, 106, 67>>,
      <<85, 118, 122, 205, 98, 249, 60, 173, 49, 86, 79, 142, 64, 44, 95, 238, 97, 162, 147, 23, 100, 103, 208, 194, 105, 76, 157, 94, 78, 20, 119, 93, 68, 28, 194, 100, 74, 156, 39, 109, 226, 48, 87, 120, 169, 13, 200, 20, 171, 143, 66, 139, 219, 79, 143, 19, 21, 233, 37, 209, 206, 176, 89, 109>> >>,
    a_crc32 |-> <<
      <<21, 98, 136, 23>>,
      <<209, 145, 159, 236>> >> ]
LongDigest(alg, k) ==
  CASE alg = "md5" -> LongTable.a_md5[k]
    [] alg = "sha1" -> LongTable.a_sha1[k]
    [] alg = "sha224" -> LongTable.a_sha224[k]
    [] alg = "sha256" -> LongTable.a_sha256[k]
    [] alg = "sha384" -> LongTable.a_sha384[k]
    [] alg = "sha512" -> LongTable.a_sha512[k]
    [] alg = "sha3-224" -> LongTable.a_sha3_224[k]
    [] alg = "sha3-256" -> LongTable.a_sha3_256[k]
    [] alg = "sha3-384" -> LongTable.a_sha3_384[k]
    [] alg = "sha3-512" -> LongTable.a_sha3_512[k]
    [] alg = "crc32" -> LongTable.a_crc32[k]
=============================================================================
