------------------------------ MODULE LongMacs -------------------------------
(* HMAC with the key "key" of n zero bytes, computed once with an independent   *)
(* implementation (OpenSSL through Python).  The shortest one is compared with  *)
(* the definition when a trace is checked.                                      *)
EXTENDS KDF
ZerosMac(alg, n) ==
  CASE alg = "md5" /\ n = "1000" ->
       << 112, 156, 254, 123, 208, 21, 100, 218, 42, 49, 113, 223, 221, 27, 120, 90 >>
    [] alg = "md5" /\ n = "536870925" ->
       << 93, 172, 63, 174, 144, 127, 48, 188, 204, 149, 239, 147, 15, 142, 126, 250 >>
    [] alg = "md5" /\ n = "4294967373" ->
       << 46, 10, 186, 127, 27, 122, 31, 159, 97, 49, 240, 116, 20, 217, 204, 156 >>
    [] alg = "sha1" /\ n = "1000" ->
       << 6, 106, 3, 71, 249, 131, 233, 202, 127, 72, 30, 122, 216, 231, 169, 219, 249, 9, 238, 246 >>
    [] alg = "sha1" /\ n = "536870925" ->
       << 75, 87, 204, 56, 25, 34, 227, 5, 138, 121, 152, 157, 210, 18, 94, 71, 233, 181, 115, 165 >>
    [] alg = "sha1" /\ n = "4294967373" ->
       << 199, 132, 75, 210, 60, 95, 144, 115, 150, 190, 211, 106, 139, 22, 20, 225, 48, 186, 195, 31 >>
    [] alg = "sha224" /\ n = "1000" ->
       << 173, 154, 78, 240, 62, 132, 15, 102, 179, 133, 145, 128, 156, 43, 212, 168, 177, 26, 148, 10, 147, 241, 187, 41, 27, 22, 226, 251 >>
    [] alg = "sha224" /\ n = "536870925" ->
       << 186, 69, 72, 133, 51, 139, 232, 60, 84, 45, 36, 245, 24, 44, 42, 3, 145, 153, 229, 233, 96, 226, 47, 225, 119, 151, 206, 123 >>
    [] alg = "sha224" /\ n = "4294967373" ->
       << 200, 35, 19, 162, 158, 72, 46, 162, 104, 38, 85, 208, 233, 113, 124, 39, 163, 239, 64, 45, 250, 158, 103, 197, 193, 71, 135, 230 >>
    [] alg = "sha256" /\ n = "1000" ->
       << 11, 191, 38, 17, 155, 207, 70, 5, 177, 79, 165, 87, 4, 19, 213, 98, 145, 138, 64, 17, 117, 179, 215, 68, 157, 73, 89, 29, 125, 236, 203, 198 >>
    [] alg = "sha256" /\ n = "536870925" ->
       << 124, 247, 208, 41, 219, 236, 77, 16, 126, 234, 100, 202, 252, 151, 220, 246, 215, 141, 174, 12, 29, 115, 19, 142, 216, 9, 209, 69, 211, 30, 56, 57 >>
    [] alg = "sha256" /\ n = "4294967373" ->
       << 145, 211, 87, 176, 243, 0, 75, 7, 101, 233, 113, 70, 14, 242, 235, 49, 133, 130, 28, 171, 235, 255, 181, 211, 202, 103, 221, 157, 181, 159, 46, 131 >>
    [] alg = "sha384" /\ n = "1000" ->
       << 85, 5, 252, 194, 224, 23, 195, 249, 169, 77, 101, 51, 6, 27, 96, 29, 228, 188, 252, 90, 112, 250, 43, 177, 220, 6, 251, 136, 44, 90, 138, 70, 26, 132, 230, 239, 10, 89, 241, 29, 0, 33, 206, 67, 134, 118, 236, 240 >>
    [] alg = "sha384" /\ n = "536870925" ->
       << 38, 88, 79, 202, 116, 180, 213, 147, 191, 81, 184, 63, 137, 92, 176, 220, 33, 97, 105, 104, 244, 197, 31, 193, 148, 230, 130, 119, 179, 241, 218, 252, 119, 206, 34, 185, 138, 149, 105, 208, 105, 187, 16, 135, 125, 204, 32, 167 >>
    [] alg = "sha384" /\ n = "4294967373" ->
       << 71, 246, 153, 105, 128, 171, 121, 105, 100, 171, 210, 170, 133, 204, 39, 124, 73, 94, 205, 112, 34, 38, 244, 223, 65, 24, 254, 152, 19, 149, 190, 150, 120, 36, 221, 162, 123, 125, 124, 13, 169, 222, 222, 179, 101, 123, 199, 81 >>
    [] alg = "sha512" /\ n = "1000" ->
       << 54, 30, 17, 207, 132, 190, 208, 57, 56, 147, 82, 237, 244, 33, 98, 221, 140, 143, 173, 161, 176, 19, 112, 122, 205, 130, 70, 146, 92, 190, 192, 92, 244, 120, 42, 55, 44, 173, 103, 251, 75, 213, 242, 112, 46, 111, 161, 196, 174, 147, 208, 26, 249, 138, 128, 161, 21, 83, 215, 190, 45, 54, 66, 178 >>
    [] alg = "sha512" /\ n = "536870925" ->
       << 141, 48, 80, 161, 153, 18, 188, 217, 149, 255, 160, 149, 119, 7, 227, 233, 225, 80, 132, 98, 139, 179, 89, 189, 176, 135, 204, 70, 78, 134, 145, 42, 137, 25, 166, 52, 120, 214, 211, 236, 177, 7, 68, 244, 234, 127, 21, 44, 10, 40, 229, 163, 240, 146, 121, 72, 174, 74, 15, 101, 66, 109, 237, 161 >>
    [] alg = "sha512" /\ n = "4294967373" ->
       << 4, 139, 210, 127, 249, 48, 2, 60, 98, 104, 68, 178, 76, 252, 121, 7, 157, 110, 25, 32, 87, 145, 20, 165, 21, 78, 201, 11, 197, 228, 63, 101, 53, 195, 52, 45, 147, 130, 57, 72, 218, 246, 107, 111, 101, 71, 145, 230, 215, 177, 96, 147, 145, 247, 34, 152, 6, 19, 25, 159, 113, 94, 224, 253 >>
    [] alg = "sha3-224" /\ n = "1000" ->
       << 163, 175, 82, 93, 225, 120, 240, 100, 4, 222, 231, 17, 64, 224, 59, 90, 12, 171, 174, 248, 149, 242, 22, 148, 108, 149, 13, 194 >>
    [] alg = "sha3-224" /\ n = "536870925" ->
       << 71, 61, 167, 64, 42, 130, 179, 181, 175, 90, 156, 152, 25, 154, 214, 101, 127, 18, 231, 60, 40, 213, 235, 115, 101, 121, 148, 94 >>
    [] alg = "sha3-224" /\ n = "4294967373" ->
       << 0, 16, 191, 198, 236, 36, 136, 237, 127, 80, 122, 21, 33, 20, 115, 175, 78, 220, 47, 105, 139, 88, 222, 81, 189, 127, 15, 138 >>
    [] alg = "sha3-256" /\ n = "1000" ->
       << 124, 235, 198, 8, 17, 194, 99, 132, 130, 200, 175, 109, 216, 0, 212, 91, 77, 96, 235, 90, 160, 95, 168, 165, 37, 156, 154, 11, 120, 68, 248, 244 >>
    [] alg = "sha3-256" /\ n = "536870925" ->
       << 97, 234, 77, 129, 207, 58, 63, 28, 69, 205, 223, 85, 26, 147, 83, 50, 47, 232, 47, 9, 252, 216, 150, 58, 179, 100, 31, 225, 116, 191, 161, 62 >>
    [] alg = "sha3-256" /\ n = "4294967373" ->
       << 182, 241, 78, 111, 219, 111, 56, 174, 46, 131, 251, 71, 64, 192, 236, 192, 218, 105, 76, 67, 190, 126, 254, 149, 122, 75, 177, 106, 142, 37, 188, 42 >>
    [] alg = "sha3-384" /\ n = "1000" ->
       << 177, 210, 245, 2, 39, 18, 61, 29, 202, 150, 2, 205, 237, 160, 96, 112, 164, 22, 117, 137, 114, 228, 136, 130, 251, 158, 47, 196, 94, 170, 38, 127, 146, 71, 255, 97, 183, 156, 69, 249, 134, 109, 126, 72, 46, 216, 195, 83 >>
    [] alg = "sha3-384" /\ n = "536870925" ->
       << 240, 204, 245, 27, 112, 6, 192, 207, 243, 36, 2, 64, 247, 51, 141, 107, 196, 9, 67, 204, 45, 175, 155, 93, 124, 17, 88, 187, 14, 231, 131, 174, 39, 175, 201, 176, 10, 116, 35, 73, 33, 40, 34, 81, 152, 144, 156, 21 >>
    [] alg = "sha3-384" /\ n = "4294967373" ->
       << 37, 17, 92, 55, 168, 95, 54, 5, 246, 65, 144, 31, 27, 111, 224, 233, 133, 161, 185, 232, 220, 146, 228, 240, 194, 204, 70, 172, 233, 102, 151, 4, 76, 180, 47, 118, 171, 169, 161, 68, 67, 190, 44, 218, 142, 179, 63, 135 >>
    [] alg = "sha3-512" /\ n = "1000" ->
       << 198, 230, 92, 84, 136, 189, 124, 181, 175, 201, 195, 133, 149, 226, 188, 34, 97, 167, 130, 14, 115, 128, 84, 115, 30, 207, 117, 29, 83, 92, 68, 16, 0, 158, 41, 168, 30, 94, 102, 212, 12, 38, 78, 158, 242, 25, 212, 44, 39, 175, 184, 178, 154, 233, 221, 134, 149, 176, 183, 224, 62, 182, 255, 226 >>
    [] alg = "sha3-512" /\ n = "536870925" ->
       << 80, 44, 232, 88, 98, 205, 118, 191, 245, 0, 198, 170, 57, 76, 82, 107, 248, 229, 124, 249, 125, 22, 236, 105, 87, 49, 120, 249, 76, 98, 178, 83, 173, 131, 193, 111, 192, 145, 36, 89, 137, 25, 0, 185, 113, 247, 39, 20, 220, 111, 119, 134, 76, 44, 51, 167, 228, 133, 51, 64, 45, 4, 225, 27 >>
    [] alg = "sha3-512" /\ n = "4294967373" ->
       << 178, 96, 122, 20, 20, 156, 61, 127, 217, 240, 228, 20, 152, 167, 40, 31, 196, 126, 50, 13, 60, 150, 247, 48, 68, 102, 90, 255, 41, 115, 131, 41, 42, 69, 147, 136, 117, 56, 115, 233, 8, 134, 98, 90, 119, 47, 74, 238, 166, 208, 4, 101, 113, 143, 39, 96, 163, 135, 230, 100, 30, 226, 98, 244 >>
ASSUME \A alg \in {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"} :
         ZerosMac(alg, "1000") = HMAC(alg, <<107, 101, 121>>, [i \in 1..1000 |-> 0])
==============================================================================
