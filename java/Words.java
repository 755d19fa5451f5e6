// Java evaluation of the operators of spec/lib/Words.tla for TLC.
import tlc2.value.impl.*;

public final class Words {
    private static int i(Value v) { return ((IntValue) v).val; }
    private static IntValue w(int x) { return IntValue.gen(x); }
    private static TupleValue tup(Value v) {
        if (v instanceof TupleValue) return (TupleValue) v;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Words: not a sequence: " + v);
        return (TupleValue) t;
    }
    private static int at(Value s, int ix) { return i(tup(s).elems[ix - 1]); }
    private static Value bytes(int a, int b, int c, int d) {
        return new TupleValue(new Value[]{w(a & 255), w(b & 255), w(c & 255), w(d & 255)});
    }

    public static Value Add(Value a, Value b) { return w(i(a) + i(b)); }
    public static Value Xor(Value a, Value b) { return w(i(a) ^ i(b)); }
    public static Value And(Value a, Value b) { return w(i(a) & i(b)); }
    public static Value Or(Value a, Value b)  { return w(i(a) | i(b)); }
    public static Value Not(Value a)          { return w(~i(a)); }
    public static Value Shl(Value a, Value n) { return w(i(n) >= 32 ? 0 : i(a) << i(n)); }
    public static Value Shr(Value a, Value n) { return w(i(n) >= 32 ? 0 : i(a) >>> i(n)); }
    public static Value Rotl(Value a, Value n) { return w(Integer.rotateLeft(i(a), i(n))); }
    public static Value Rotr(Value a, Value n) { return w(Integer.rotateRight(i(a), i(n))); }
    public static Value WordBE(Value s, Value ix) {
        TupleValue t = tup(s); int k = i(ix) - 1;
        return w(i(t.elems[k]) << 24 | i(t.elems[k+1]) << 16 | i(t.elems[k+2]) << 8 | i(t.elems[k+3]));
    }
    public static Value WordLE(Value s, Value ix) {
        TupleValue t = tup(s); int k = i(ix) - 1;
        return w(i(t.elems[k+3]) << 24 | i(t.elems[k+2]) << 16 | i(t.elems[k+1]) << 8 | i(t.elems[k]));
    }
    public static Value BytesBE(Value v) { int x = i(v); return bytes(x >>> 24, x >>> 16, x >>> 8, x); }
    public static Value BytesLE(Value v) { int x = i(v); return bytes(x, x >>> 8, x >>> 16, x >>> 24); }
    public static Value XorByte(Value a, Value b) { return w(i(a) ^ i(b)); }
    public static Value AndByte(Value a, Value b) { return w(i(a) & i(b)); }
    public static Value XorBytes(Value a, Value b) {
        TupleValue x = tup(a), y = tup(b);
        Value[] r = new Value[x.elems.length];
        for (int k = 0; k < r.length; k++) r[k] = w(i(x.elems[k]) ^ i(y.elems[k]));
        return new TupleValue(r);
    }

    private static long l(Value v) {
        TupleValue t = tup(v);
        return ((long) i(t.elems[0])) << 32 | (i(t.elems[1]) & 0xffffffffL);
    }
    private static Value p(long x) { return new TupleValue(new Value[]{w((int) (x >>> 32)), w((int) x)}); }
    public static Value Xor64(Value a, Value b) { return p(l(a) ^ l(b)); }
    public static Value And64(Value a, Value b) { return p(l(a) & l(b)); }
    public static Value Not64(Value a) { return p(~l(a)); }
    public static Value Add64(Value a, Value b) { return p(l(a) + l(b)); }
    public static Value Rotl64(Value a, Value n) { return p(Long.rotateLeft(l(a), i(n))); }
    public static Value Rotr64(Value a, Value n) { return p(Long.rotateRight(l(a), i(n))); }
    public static Value Shr64(Value a, Value n) { return p(l(a) >>> i(n)); }
}
