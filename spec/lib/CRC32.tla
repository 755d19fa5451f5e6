------------------------------- MODULE CRC32 --------------------------------
(* CRC-32/ISO-HDLC: reflected polynomial 0x04C11DB7, all ones in and out.    *)
EXTENDS Bytes

LOCAL Poly == -306674912                                      \* 0xEDB88320
LOCAL BitStep(c) == IF And(c, 1) = 1 THEN Xor(Shr(c, 1), Poly) ELSE Shr(c, 1)
LOCAL ByteTable == TLCEval([b \in 0..255 |-> FoldLeft(LAMBDA c, i: BitStep(c), b, Iota(8))])
LOCAL ByteStep(c, b) == Xor(Shr(c, 8), ByteTable[And(Xor(c, b), 255)])
Crc32(m) == BytesBE(Not(FoldLeft(ByteStep, -1, m)))
=============================================================================
