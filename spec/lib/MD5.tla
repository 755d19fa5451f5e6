-------------------------------- MODULE MD5 ---------------------------------
(* RFC 1321.                                                                 *)
EXTENDS Bytes

LOCAL T == <<
  -680876936, -389564586, 606105819, -1044525330, -176418897, 1200080426,
  -1473231341, -45705983, 1770035416, -1958414417, -42063, -1990404162,
  1804603682, -40341101, -1502002290, 1236535329, -165796510, -1069501632,
  643717713, -373897302, -701558691, 38016083, -660478335, -405537848,
  568446438, -1019803690, -187363961, 1163531501, -1444681467, -51403784,
  1735328473, -1926607734, -378558, -2022574463, 1839030562, -35309556,
  -1530992060, 1272893353, -155497632, -1094730640, 681279174, -358537222,
  -722521979, 76029189, -640364487, -421815835, 530742520, -995338651,
  -198630844, 1126891415, -1416354905, -57434055, 1700485571, -1894986606,
  -1051523, -2054922799, 1873313359, -30611744, -1560198380, 1309151649,
  -145523070, -1120210379, 718787259, -343485551 >>

LOCAL R == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
LOCAL Mult == << 1, 5, 3, 7 >>
LOCAL Offs == << 0, 1, 5, 0 >>

LOCAL Fn(r, x, y, z) ==
  CASE r = 1 -> Or(And(x, y), And(Not(x), z))
    [] r = 2 -> Or(And(x, z), And(y, Not(z)))
    [] r = 3 -> Xor(Xor(x, y), z)
    [] r = 4 -> Xor(y, Or(x, Not(z)))

(* step i in 1..64 on v = <<a, b, c, d>> *)
LOCAL Step(v, i, m, o) ==
  LET r == (i - 1) \div 16 + 1
      k == ((i - 1) * Mult[r] + Offs[r]) % 16
      x == Add(Add(v[1], Fn(r, v[2], v[3], v[4])), Add(WordLE(m, o + 4*k), T[i]))
  IN  << v[4], Add(v[2], Rotl(x, R[r][((i - 1) % 4) + 1])), v[2], v[3] >>

LOCAL Compress(H, m, o) ==
  LET V == FoldLeft(LAMBDA v, i: TLCEval(Step(v, i, m, o)), H, Iota(64))
  IN  TLCEval([i \in 1..4 |-> Add(H[i], V[i])])

LOCAL Pad(m) ==
  LET z == (64 - ((Len(m) + 9) % 64)) % 64
  IN  m \o <<128>> \o Zeros(z) \o BytesLE(Shl(Len(m), 3)) \o << Len(m) \div 2^29, 0, 0, 0 >>

MD5(m) ==
  LET p == TLCEval(Pad(m))
      H == FoldLeft(LAMBDA h, b: Compress(h, p, 64*(b-1) + 1),
                    << 1732584193, -271733879, -1732584194, 271733878 >>, Iota(Len(p) \div 64))
  IN  Concat([i \in 1..4 |-> BytesLE(H[i])])
=============================================================================
