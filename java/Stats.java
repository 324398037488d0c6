import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of spec/Stats.tla, by the same names. */
public class Stats {
    private static Value[] el(final Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    private static int[] ints(final Value v) {
        final Value[] e = el(v);
        final int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) r[i] = ((IntValue) e[i]).val;
        return r;
    }

    private static int n(final Value v) {
        return ((IntValue) v).val;
    }

    private static Value num(final long x) {
        if (x > Integer.MAX_VALUE || x < Integer.MIN_VALUE) throw new RuntimeException("Stats: overflow");
        return IntValue.gen((int) x);
    }

    private static Value tup(final int[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(a[i]);
        return new TupleValue(e);
    }

    public static Value SumI(final Value x) {
        long s = 0;
        for (final int v : ints(x)) s += v;
        return num(s);
    }

    public static Value SumLag(final Value x, final Value k) {
        final int[] a = ints(x);
        final int d = n(k);
        long s = 0;
        for (int i = 0; i + d < a.length; i++) s += (long) a[i] * a[i + d];
        return num(s);
    }

    public static Value Dot(final Value x, final Value y) {
        final int[] a = ints(x), b = ints(y);
        long s = 0;
        for (int i = 0; i < a.length; i++) s += (long) a[i] * b[i];
        return num(s);
    }

    public static Value CountOf(final Value x, final Value v) {
        final int c = n(v);
        long s = 0;
        for (final int y : ints(x)) if (y == c) s++;
        return num(s);
    }

    public static Value Column(final Value x, final Value w, final Value c) {
        final Value[] a = el(x);
        final int ww = n(w), cc = n(c);
        final Value[] r = new Value[a.length / ww];
        for (int i = 0; i < r.length; i++) r[i] = a[i * ww + cc - 1];
        return new TupleValue(r);
    }

    public static Value AllWithin(final Value x, final Value b) {
        final int bb = n(b);
        for (final int y : ints(x)) if (y > bb || -y > bb) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    public static Value Shifted(final Value x, final Value d) {
        final int[] a = ints(x);
        for (int i = 0; i < a.length; i++) a[i] += n(d);
        return tup(a);
    }

    public static Value UniCentered(final Value x, final Value k) {
        final int[] a = ints(x);
        for (int i = 0; i < a.length; i++) a[i] = 2 * a[i] - (n(k) - 1);
        return tup(a);
    }

    public static Value BucketsOf(final Value x, final Value q, final Value k) {
        final Value[] e = el(x);
        final BigInteger qq = BigNat.big(q), kk = BigInteger.valueOf(n(k));
        final int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) r[i] = BigNat.big(e[i]).multiply(kk).divide(qq).intValueExact();
        return tup(r);
    }

    public static Value LowOf(final Value x, final Value k) {
        final Value[] e = el(x);
        final BigInteger kk = BigInteger.valueOf(n(k));
        final int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) r[i] = BigNat.big(e[i]).mod(kk).intValueExact();
        return tup(r);
    }

    public static Value SmallInts(final Value x, final Value q, final Value b) {
        final Value[] e = el(x);
        final BigInteger qq = BigNat.big(q), bb = BigInteger.valueOf(n(b));
        final int[] r = new int[e.length];
        for (int i = 0; i < r.length; i++) {
            final BigInteger v = BigNat.big(e[i]), m = v.mod(qq);
            final BigInteger a = m.min(qq.subtract(m));
            if (a.compareTo(bb) > 0) r[i] = n(b) + 1;
            else r[i] = v.shiftLeft(1).compareTo(qq) <= 0 ? a.intValueExact() : -a.intValueExact();
        }
        return tup(r);
    }

    public static Value Cat(final Value s) {
        final java.util.ArrayList<Value> r = new java.util.ArrayList<>();
        for (final Value y : el(s)) for (final Value z : el(y)) r.add(z);
        return new TupleValue(r.toArray(new Value[0]));
    }

    public static Value AllDistinct(final Value s) {
        final Value[] e = ((TupleValue) s.toTuple()).elems;
        final java.util.HashSet<java.math.BigInteger> seen = new java.util.HashSet<>(2 * e.length);
        for (final Value x : e) if (!seen.add(key(x))) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    /** an injective number for nested sequences of integers */
    private static java.math.BigInteger key(final Value v) {
        final StringBuilder b = new StringBuilder();
        flat(v, b);
        return new java.math.BigInteger(1, b.toString().getBytes(java.nio.charset.StandardCharsets.US_ASCII));
    }

    private static void flat(final Value v, final StringBuilder b) {
        if (v instanceof IntValue) {
            b.append(((IntValue) v).val).append(',');
            return;
        }
        b.append('[');
        for (final Value x : ((TupleValue) v.toTuple()).elems) flat(x, b);
        b.append(']');
    }
}
