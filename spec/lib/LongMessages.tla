---------------------------- MODULE LongMessages ----------------------------
(* Digests of  DER-SEQUENCE(n zero bytes), computed once with an independent     *)
(* implementation (OpenSSL through Python).                                     *)
WrappedZerosDigest(alg, len) ==
  CASE alg = "sha256" /\ len = "65535" ->
       << 44, 184, 188, 78, 45, 11, 67, 154, 206, 7, 77, 108, 249, 82, 225, 231, 172, 119, 46, 128, 234, 115, 8, 4, 147, 64, 17, 127, 217, 209, 230, 242 >>
    [] alg = "sha256" /\ len = "65536" ->
       << 73, 249, 234, 216, 141, 24, 109, 204, 144, 113, 247, 225, 65, 19, 255, 23, 141, 111, 233, 245, 143, 85, 218, 150, 44, 78, 93, 157, 41, 196, 104, 232 >>
    [] alg = "sha256" /\ len = "16777215" ->
       << 120, 36, 60, 243, 46, 94, 34, 172, 12, 204, 155, 141, 94, 231, 137, 67, 62, 225, 11, 45, 128, 216, 39, 226, 158, 90, 253, 5, 217, 179, 134, 154 >>
    [] alg = "sha256" /\ len = "16777216" ->
       << 218, 239, 251, 143, 11, 206, 70, 46, 253, 139, 6, 146, 108, 123, 39, 115, 117, 122, 42, 135, 239, 156, 82, 233, 167, 134, 228, 186, 231, 104, 79, 148 >>
    [] alg = "sha256" /\ len = "16847216" ->
       << 239, 242, 136, 86, 75, 62, 117, 88, 158, 145, 25, 108, 10, 7, 92, 70, 131, 13, 141, 89, 207, 33, 25, 216, 218, 68, 87, 159, 77, 200, 243, 179 >>
    [] alg = "sha256" /\ len = "305419896" ->
       << 69, 38, 221, 229, 136, 237, 234, 253, 86, 51, 61, 220, 212, 90, 128, 60, 170, 204, 194, 132, 130, 255, 238, 197, 7, 36, 221, 131, 77, 59, 88, 119 >>
    [] alg = "sha256" /\ len = "4295037296" ->
       << 139, 95, 180, 208, 144, 72, 108, 114, 29, 75, 245, 62, 133, 229, 223, 25, 182, 237, 3, 158, 26, 153, 232, 233, 100, 107, 40, 54, 51, 231, 41, 66 >>
    [] alg = "sha384" /\ len = "65535" ->
       << 192, 87, 116, 191, 25, 189, 68, 27, 40, 180, 57, 246, 127, 210, 33, 69, 120, 155, 10, 218, 227, 104, 179, 85, 224, 120, 110, 54, 70, 129, 135, 113, 54, 0, 179, 235, 149, 186, 74, 255, 30, 220, 245, 194, 153, 104, 156, 226 >>
    [] alg = "sha384" /\ len = "65536" ->
       << 31, 148, 10, 111, 229, 75, 49, 105, 214, 166, 157, 109, 105, 39, 227, 49, 35, 95, 111, 218, 29, 70, 251, 235, 20, 175, 7, 123, 93, 143, 71, 68, 4, 254, 36, 32, 63, 103, 235, 106, 250, 108, 131, 18, 140, 141, 184, 8 >>
    [] alg = "sha384" /\ len = "16777215" ->
       << 48, 22, 78, 80, 69, 157, 237, 7, 54, 109, 37, 63, 90, 78, 15, 2, 81, 167, 180, 101, 247, 37, 226, 158, 52, 165, 12, 150, 208, 161, 128, 65, 192, 90, 189, 73, 243, 144, 40, 220, 221, 108, 218, 153, 181, 17, 185, 234 >>
    [] alg = "sha384" /\ len = "16777216" ->
       << 197, 200, 101, 93, 125, 124, 35, 24, 244, 107, 165, 246, 137, 31, 237, 106, 104, 217, 36, 10, 93, 58, 114, 255, 71, 65, 253, 232, 147, 126, 49, 46, 166, 51, 115, 98, 173, 229, 3, 170, 195, 11, 142, 138, 91, 110, 122, 107 >>
    [] alg = "sha384" /\ len = "16847216" ->
       << 192, 65, 101, 86, 46, 89, 49, 68, 22, 134, 133, 121, 37, 73, 226, 206, 185, 116, 251, 25, 88, 159, 81, 100, 240, 210, 169, 158, 9, 167, 188, 101, 132, 108, 100, 45, 193, 4, 52, 182, 169, 255, 37, 58, 30, 218, 124, 30 >>
    [] alg = "sha512" /\ len = "65535" ->
       << 126, 47, 221, 200, 41, 148, 203, 52, 35, 12, 222, 170, 140, 193, 151, 138, 8, 75, 183, 142, 192, 109, 78, 60, 101, 166, 16, 155, 52, 241, 142, 112, 179, 136, 73, 176, 130, 140, 7, 123, 230, 33, 173, 114, 170, 189, 193, 137, 87, 71, 246, 89, 196, 214, 223, 36, 122, 246, 58, 171, 55, 168, 165, 98 >>
    [] alg = "sha512" /\ len = "65536" ->
       << 151, 168, 118, 131, 129, 125, 231, 183, 68, 48, 101, 119, 168, 136, 43, 49, 32, 199, 241, 77, 151, 107, 255, 85, 173, 38, 79, 115, 42, 92, 66, 252, 159, 129, 191, 178, 14, 153, 80, 165, 26, 185, 70, 75, 238, 53, 171, 132, 56, 156, 121, 181, 52, 188, 38, 250, 36, 84, 68, 192, 236, 164, 20, 100 >>
    [] alg = "sha512" /\ len = "16777215" ->
       << 35, 13, 138, 238, 9, 163, 138, 161, 10, 213, 108, 97, 82, 13, 174, 119, 91, 213, 101, 192, 76, 179, 182, 160, 26, 152, 65, 107, 252, 165, 204, 236, 59, 140, 219, 55, 183, 217, 249, 175, 36, 229, 20, 84, 76, 142, 49, 67, 181, 2, 252, 221, 122, 43, 183, 134, 199, 138, 214, 97, 120, 227, 242, 196 >>
    [] alg = "sha512" /\ len = "16777216" ->
       << 97, 141, 169, 233, 179, 180, 32, 73, 184, 235, 26, 102, 163, 204, 216, 169, 172, 14, 39, 96, 244, 23, 212, 26, 250, 101, 163, 155, 66, 107, 136, 13, 254, 65, 37, 35, 128, 219, 217, 213, 57, 214, 47, 48, 70, 168, 215, 230, 171, 129, 130, 228, 241, 174, 244, 103, 37, 36, 137, 66, 71, 114, 37, 80 >>
    [] alg = "sha512" /\ len = "16847216" ->
       << 12, 177, 228, 60, 120, 182, 253, 134, 78, 25, 63, 123, 97, 16, 218, 136, 167, 216, 147, 180, 75, 17, 221, 243, 239, 101, 218, 4, 87, 138, 133, 119, 8, 116, 199, 130, 58, 227, 19, 93, 82, 110, 198, 86, 236, 31, 6, 181, 130, 175, 219, 138, 123, 112, 93, 132, 130, 169, 135, 156, 81, 21, 241, 130 >>
(* digests of n zero bytes, from the same source *)
ZerosDigest(alg, len) ==
  CASE alg = "sha256" /\ len = "65536" ->
       << 222, 47, 37, 96, 100, 160, 175, 121, 119, 71, 194, 185, 117, 5, 220, 11, 159, 61, 240, 222, 79, 72, 158, 172, 115, 28, 35, 174, 156, 169, 204, 49 >>
    [] alg = "sha256" /\ len = "16847216" ->
       << 31, 226, 113, 252, 236, 188, 232, 146, 147, 70, 190, 222, 39, 127, 128, 212, 45, 221, 157, 142, 12, 105, 160, 29, 26, 147, 156, 32, 46, 57, 175, 139 >>
    [] alg = "sha256" /\ len = "536870925" ->
       << 23, 177, 126, 53, 160, 44, 77, 248, 244, 179, 159, 131, 248, 166, 32, 61, 145, 176, 182, 59, 7, 26, 81, 180, 139, 127, 141, 223, 183, 231, 106, 183 >>
    [] alg = "sha256" /\ len = "4294967373" ->
       << 13, 111, 144, 117, 234, 196, 206, 79, 103, 23, 125, 216, 37, 234, 34, 20, 78, 201, 143, 32, 144, 44, 106, 4, 128, 159, 43, 40, 144, 155, 140, 212 >>
    [] alg = "sha384" /\ len = "65536" ->
       << 105, 252, 164, 105, 67, 17, 138, 149, 46, 79, 22, 94, 18, 42, 71, 242, 183, 181, 51, 111, 168, 250, 22, 116, 162, 100, 55, 209, 131, 167, 233, 71, 241, 90, 74, 10, 250, 190, 206, 109, 107, 40, 227, 200, 79, 96, 250, 194 >>
    [] alg = "sha384" /\ len = "16847216" ->
       << 2, 253, 249, 234, 116, 110, 20, 221, 43, 155, 172, 185, 92, 217, 186, 77, 244, 25, 228, 244, 183, 56, 49, 48, 156, 239, 229, 159, 251, 248, 79, 173, 215, 154, 30, 175, 82, 69, 89, 90, 221, 19, 233, 112, 88, 236, 0, 198 >>
    [] alg = "sha384" /\ len = "536870925" ->
       << 166, 94, 3, 189, 103, 154, 159, 125, 180, 131, 106, 237, 40, 221, 242, 65, 36, 106, 209, 165, 104, 147, 217, 117, 39, 157, 136, 25, 217, 157, 28, 42, 207, 27, 63, 231, 100, 184, 55, 9, 179, 62, 113, 112, 105, 53, 160, 168 >>
    [] alg = "sha384" /\ len = "4294967373" ->
       << 59, 139, 233, 233, 226, 26, 88, 206, 177, 67, 72, 149, 57, 48, 106, 0, 46, 234, 57, 138, 172, 71, 148, 29, 198, 151, 234, 137, 119, 58, 152, 107, 189, 132, 23, 96, 37, 222, 248, 238, 85, 108, 190, 144, 106, 10, 17, 178 >>
    [] alg = "sha512" /\ len = "65536" ->
       << 115, 228, 21, 57, 54, 218, 177, 152, 57, 123, 116, 238, 158, 252, 38, 9, 61, 218, 114, 30, 170, 178, 248, 217, 39, 134, 137, 17, 83, 180, 91, 4, 38, 90, 22, 27, 22, 156, 152, 142, 219, 13, 178, 197, 49, 36, 96, 123, 110, 170, 168, 22, 85, 156, 92, 229, 79, 61, 188, 159, 166, 167, 164, 178 >>
    [] alg = "sha512" /\ len = "16847216" ->
       << 11, 99, 230, 46, 190, 91, 89, 232, 193, 240, 13, 65, 63, 5, 8, 195, 85, 106, 8, 177, 74, 230, 184, 204, 180, 24, 17, 32, 176, 77, 106, 253, 62, 211, 95, 227, 172, 56, 195, 121, 220, 78, 31, 179, 100, 163, 80, 221, 6, 66, 96, 242, 145, 173, 77, 31, 251, 126, 252, 16, 44, 107, 81, 250 >>
    [] alg = "sha512" /\ len = "536870925" ->
       << 72, 45, 112, 99, 145, 34, 126, 93, 62, 184, 96, 193, 247, 224, 160, 12, 22, 37, 231, 255, 168, 195, 80, 38, 98, 127, 167, 206, 49, 221, 60, 31, 103, 59, 40, 117, 212, 28, 17, 155, 173, 106, 61, 213, 194, 14, 237, 116, 30, 175, 18, 5, 144, 247, 94, 163, 103, 139, 26, 42, 209, 214, 3, 29 >>
    [] alg = "sha512" /\ len = "4294967373" ->
       << 151, 184, 174, 91, 62, 169, 100, 21, 4, 147, 178, 146, 252, 158, 220, 235, 48, 90, 238, 58, 13, 236, 131, 241, 118, 168, 122, 203, 84, 225, 14, 150, 139, 105, 26, 180, 231, 211, 228, 230, 145, 2, 22, 22, 234, 117, 22, 50, 27, 87, 159, 106, 67, 254, 255, 217, 60, 204, 204, 206, 124, 118, 252, 194 >>
============================================================================
