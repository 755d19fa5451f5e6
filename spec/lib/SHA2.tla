-------------------------------- MODULE SHA2 --------------------------------
(* FIPS 180-4: SHA-224, SHA-256, SHA-384, SHA-512 over byte sequences.       *)
EXTENDS Words, SequencesExt, TLC

LOCAL Zeros(n) == [i \in 1..n |-> 0]

(* number n < 2^31 as a big-endian number of bits (8n) in w bytes, w >= 8 *)
BitLenBE(n, w) == Zeros(w - 5) \o << n \div 2^29 >> \o BytesBE(Shl(n, 3))

(* all data padded to a multiple of blk bytes with a wlen-byte bit length *)
MDPad(m, blk, wlen) ==
  LET z == (blk - ((Len(m) + 1 + wlen) % blk)) % blk
  IN  m \o <<128>> \o Zeros(z) \o BitLenBE(Len(m), wlen)

K256 == <<
  1116352408, 1899447441, -1245643825, -373957723, 961987163, 1508970993,
  -1841331548, -1424204075, -670586216, 310598401, 607225278, 1426881987,
  1925078388, -2132889090, -1680079193, -1046744716, -459576895, -272742522,
  264347078, 604807628, 770255983, 1249150122, 1555081692, 1996064986,
  -1740746414, -1473132947, -1341970488, -1084653625, -958395405, -710438585,
  113926993, 338241895, 666307205, 773529912, 1294757372, 1396182291,
  1695183700, 1986661051, -2117940946, -1838011259, -1564481375, -1474664885,
  -1035236496, -949202525, -778901479, -694614492, -200395387, 275423344,
  430227734, 506948616, 659060556, 883997877, 958139571, 1322822218,
  1537002063, 1747873779, 1955562222, 2024104815, -2067236844, -1933114872,
  -1866530822, -1538233109, -1090935817, -965641998 >>

K512 == <<
  <<1116352408, -685199838>>, <<1899447441, 602891725>>, <<-1245643825, -330482897>>, <<-373957723, -2121671748>>,
  <<961987163, -213338824>>, <<1508970993, -1241133031>>, <<-1841331548, -1357295717>>, <<-1424204075, -630357736>>,
  <<-670586216, -1560083902>>, <<310598401, 1164996542>>, <<607225278, 1323610764>>, <<1426881987, -704662302>>,
  <<1925078388, -226784913>>, <<-2132889090, 991336113>>, <<-1680079193, 633803317>>, <<-1046744716, -815192428>>,
  <<-459576895, -1628353838>>, <<-272742522, 944711139>>, <<264347078, -1953704523>>, <<604807628, 2007800933>>,
  <<770255983, 1495990901>>, <<1249150122, 1856431235>>, <<1555081692, -1119749164>>, <<1996064986, -2096016459>>,
  <<-1740746414, -295247957>>, <<-1473132947, 766784016>>, <<-1341970488, -1728372417>>, <<-1084653625, -1091629340>>,
  <<-958395405, 1034457026>>, <<-710438585, -1828018395>>, <<113926993, -536640913>>, <<338241895, 168717936>>,
  <<666307205, 1188179964>>, <<773529912, 1546045734>>, <<1294757372, 1522805485>>, <<1396182291, -1651133473>>,
  <<1695183700, -1951439906>>, <<1986661051, 1014477480>>, <<-2117940946, 1206759142>>, <<-1838011259, 344077627>>,
  <<-1564481375, 1290863460>>, <<-1474664885, -1136513023>>, <<-1035236496, -789014639>>, <<-949202525, 106217008>>,
  <<-778901479, -688958952>>, <<-694614492, 1432725776>>, <<-200395387, 1467031594>>, <<275423344, 851169720>>,
  <<430227734, -1194143544>>, <<506948616, 1363258195>>, <<659060556, -544281703>>, <<883997877, -509917016>>,
  <<958139571, -976659869>>, <<1322822218, -482243893>>, <<1537002063, 2003034995>>, <<1747873779, -692930397>>,
  <<1955562222, 1575990012>>, <<2024104815, 1125592928>>, <<-2067236844, -1578062990>>, <<-1933114872, 442776044>>,
  <<-1866530822, 593698344>>, <<-1538233109, -561857047>>, <<-1090935817, -1295615723>>, <<-965641998, -479046869>>,
  <<-903397682, -366583396>>, <<-779700025, 566280711>>, <<-354779690, -840897762>>, <<-176337025, -294727304>>,
  <<116418474, 1914138554>>, <<174292421, -1563912026>>, <<289380356, -1090974290>>, <<460393269, 320620315>>,
  <<685471733, 587496836>>, <<852142971, 1086792851>>, <<1017036298, 365543100>>, <<1126000580, -1676669620>>,
  <<1288033470, -885112138>>, <<1501505948, -60457430>>, <<1607167915, 987167468>>, <<1816402316, 1246189591>> >>

H224 == <<
  -1056596264, 914150663, 812702999, -150054599, -4191439, 1750603025,
  1694076839, -1090891868 >>

H256 == <<
  1779033703, -1150833019, 1013904242, -1521486534, 1359893119, -1694144372,
  528734635, 1541459225 >>

H384 == <<
  <<-876896931, -1056596264>>, <<1654270250, 914150663>>, <<-1856437926, 812702999>>, <<355462360, -150054599>>,
  <<1731405415, -4191439>>, <<-1900787065, 1750603025>>, <<-619958771, 1694076839>>, <<1203062813, -1090891868>> >>

H512 == <<
  <<1779033703, -205731576>>, <<-1150833019, -2067093701>>, <<1013904242, -23791573>>, <<-1521486534, 1595750129>>,
  <<1359893119, -1377402159>>, <<-1694144372, 725511199>>, <<528734635, -79577749>>, <<1541459225, 327033209>> >>

(* ---------------------------- 32-bit variants ---------------------------- *)
LOCAL Ch(x, y, z)  == Xor(And(x, y), And(Not(x), z))
LOCAL Maj(x, y, z) == Xor(Xor(And(x, y), And(x, z)), And(y, z))
LOCAL S0(x) == Xor(Xor(Rotr(x, 2), Rotr(x, 13)), Rotr(x, 22))
LOCAL S1(x) == Xor(Xor(Rotr(x, 6), Rotr(x, 11)), Rotr(x, 25))
LOCAL s0(x) == Xor(Xor(Rotr(x, 7), Rotr(x, 18)), Shr(x, 3))
LOCAL s1(x) == Xor(Xor(Rotr(x, 17), Rotr(x, 19)), Shr(x, 10))

LOCAL Schedule256(m, o) ==
  FoldLeft(LAMBDA W, t: Append(W, Add(Add(s1(W[t-2]), W[t-7]), Add(s0(W[t-15]), W[t-16]))),
           TLCEval([t \in 1..16 |-> WordBE(m, o + 4*(t-1))]),
           [i \in 1..48 |-> 16 + i])

LOCAL Round256(v, kw) ==
  LET T1 == Add(Add(v[8], S1(v[5])), Add(Ch(v[5], v[6], v[7]), kw))
      T2 == Add(S0(v[1]), Maj(v[1], v[2], v[3]))
  IN  << Add(T1, T2), v[1], v[2], v[3], Add(v[4], T1), v[5], v[6], v[7] >>

(* o: index of the first byte of the block in m *)
Compress256(H, m, o) ==
  LET W == Schedule256(m, o)
      V == FoldLeft(LAMBDA v, t: TLCEval(Round256(v, Add(K256[t], W[t]))), H, [i \in 1..64 |-> i])
  IN  TLCEval([i \in 1..8 |-> Add(H[i], V[i])])

LOCAL Hash32(H0, m) ==
  LET p == TLCEval(MDPad(m, 64, 8))
  IN  FoldLeft(LAMBDA H, b: Compress256(H, p, 64*(b-1) + 1), H0, [b \in 1..(Len(p) \div 64) |-> b])

LOCAL Out(H, f(_), n) == SubSeq(FlattenSeq([i \in 1..8 |-> f(H[i])]), 1, n)
SHA224(m) == Out(Hash32(H224, m), BytesBE, 28)
SHA256(m) == Out(Hash32(H256, m), BytesBE, 32)

(* ---------------------------- 64-bit variants ---------------------------- *)
LOCAL Ch64(x, y, z)  == Xor64(And64(x, y), And64(Not64(x), z))
LOCAL Maj64(x, y, z) == Xor64(Xor64(And64(x, y), And64(x, z)), And64(y, z))
LOCAL S064(x) == Xor64(Xor64(Rotr64(x, 28), Rotr64(x, 34)), Rotr64(x, 39))
LOCAL S164(x) == Xor64(Xor64(Rotr64(x, 14), Rotr64(x, 18)), Rotr64(x, 41))
LOCAL s064(x) == Xor64(Xor64(Rotr64(x, 1), Rotr64(x, 8)), Shr64(x, 7))
LOCAL s164(x) == Xor64(Xor64(Rotr64(x, 19), Rotr64(x, 61)), Shr64(x, 6))

LOCAL Schedule512(m, o) ==
  FoldLeft(LAMBDA W, t: Append(W, Add64(Add64(s164(W[t-2]), W[t-7]), Add64(s064(W[t-15]), W[t-16]))),
           TLCEval([t \in 1..16 |-> << WordBE(m, o + 8*(t-1)), WordBE(m, o + 8*(t-1) + 4) >>]),
           [i \in 1..64 |-> 16 + i])

LOCAL Round512(v, kw) ==
  LET T1 == Add64(Add64(v[8], S164(v[5])), Add64(Ch64(v[5], v[6], v[7]), kw))
      T2 == Add64(S064(v[1]), Maj64(v[1], v[2], v[3]))
  IN  << Add64(T1, T2), v[1], v[2], v[3], Add64(v[4], T1), v[5], v[6], v[7] >>

Compress512(H, m, o) ==
  LET W == Schedule512(m, o)
      V == FoldLeft(LAMBDA v, t: TLCEval(Round512(v, Add64(K512[t], W[t]))), H, [i \in 1..80 |-> i])
  IN  TLCEval([i \in 1..8 |-> Add64(H[i], V[i])])

LOCAL Hash64(H0, m) ==
  LET p == TLCEval(MDPad(m, 128, 16))
  IN  FoldLeft(LAMBDA H, b: Compress512(H, p, 128*(b-1) + 1), H0, [b \in 1..(Len(p) \div 128) |-> b])

SHA384(m) == Out(Hash64(H384, m), Bytes64BE, 48)
SHA512(m) == Out(Hash64(H512, m), Bytes64BE, 64)
=============================================================================
