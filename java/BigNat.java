// Java evaluation of the operators of spec/lib/BigNat.tla for TLC.
import java.math.BigInteger;
import tlc2.value.impl.*;

public final class BigNat {
    private static int i(Value v) { return ((IntValue) v).val; }
    private static TupleValue tup(Value v) {
        if (v instanceof TupleValue) return (TupleValue) v;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigNat: not a sequence: " + v);
        return (TupleValue) t;
    }
    private static BigInteger le(Value v) {
        Value[] e = tup(v).elems;
        byte[] b = new byte[e.length + 1];
        for (int k = 0; k < e.length; k++) b[b.length - 1 - k] = (byte) i(e[k]);
        return new BigInteger(b);
    }
    private static BigInteger be(Value v) {
        Value[] e = tup(v).elems;
        byte[] b = new byte[e.length + 1];
        for (int k = 0; k < e.length; k++) b[k + 1] = (byte) i(e[k]);
        return new BigInteger(b);
    }
    private static Value num(BigInteger n) {
        if (n.signum() < 0) throw new RuntimeException("BigNat: negative result");
        byte[] b = n.toByteArray();
        int len = (n.bitLength() + 7) / 8;
        Value[] e = new Value[len];
        for (int k = 0; k < len; k++) e[k] = IntValue.gen(b[b.length - 1 - k] & 255);
        return new TupleValue(e);
    }
    public static Value FromLE(Value s) { return num(le(s)); }
    public static Value FromBE(Value s) { return num(be(s)); }
    public static Value ToLE(Value n, Value len) {
        Value[] a = tup(n).elems, e = new Value[i(len)];
        for (int k = 0; k < e.length; k++) e[k] = k < a.length ? a[k] : IntValue.gen(0);
        return new TupleValue(e);
    }
    public static Value ToBE(Value n, Value len) {
        Value[] a = tup(n).elems, e = new Value[i(len)];
        for (int k = 0; k < e.length; k++) { int j = e.length - 1 - k; e[k] = j < a.length ? a[j] : IntValue.gen(0); }
        return new TupleValue(e);
    }
    public static Value FromInt(Value v) { return num(BigInteger.valueOf(i(v))); }
    public static Value NatPlus(Value a, Value b) { return num(le(a).add(le(b))); }
    public static Value NatMinus(Value a, Value b) { return num(le(a).subtract(le(b))); }
    public static Value NatTimes(Value a, Value b) { return num(le(a).multiply(le(b))); }
    public static Value Quot(Value a, Value b) { return num(le(a).divide(le(b))); }
    public static Value Rem(Value a, Value b) { return num(le(a).mod(le(b))); }
    public static Value PowerOf2(Value k) { return num(BigInteger.ONE.shiftLeft(i(k))); }
    public static Value Less(Value a, Value b) { return le(a).compareTo(le(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BitAt(Value a, Value k) { return IntValue.gen(le(a).testBit(i(k)) ? 1 : 0); }
    public static Value BitLength(Value a) { return IntValue.gen(le(a).bitLength()); }
    public static Value PowerMod(Value b, Value e, Value m) { return num(le(b).modPow(le(e), le(m))); }
    public static Value NatXor(Value a, Value b) { return num(le(a).xor(le(b))); }
    public static Value NatAnd(Value a, Value b) { return num(le(a).and(le(b))); }
    public static Value IsPrime(Value a) { return le(a).isProbablePrime(200) ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
