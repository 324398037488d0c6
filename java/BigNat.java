import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of spec/BigNat.tla, by the same names. */
public class BigNat {
    static BigInteger big(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final Value[] e = t.elems;
        BigInteger r = BigInteger.ZERO;
        int i = e.length;
        // four digits (60 bits) at a time, most significant first
        int head = i % 4;
        if (head != 0) {
            long w = 0;
            for (int k = 0; k < head; k++) w = (w << 15) | digit(e[--i]);
            r = BigInteger.valueOf(w);
        }
        while (i > 0) {
            long w = 0;
            for (int k = 0; k < 4; k++) w = (w << 15) | digit(e[--i]);
            r = r.shiftLeft(60).or(BigInteger.valueOf(w));
        }
        return r;
    }

    private static int digit(final Value v) {
        final int d = ((IntValue) v).val;
        if (d < 0 || d >= 32768) throw new RuntimeException("not a BigNat digit: " + d);
        return d;
    }

    static Value tla(final BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("negative BigNat " + b);
        final int n = (b.bitLength() + 14) / 15;
        final Value[] e = new Value[n];
        final byte[] m = b.toByteArray(); // big endian
        for (int i = 0; i < n; i++) {
            int bit = i * 15, d = 0;
            final int by = bit >> 3, sh = bit & 7;
            long w = 0;
            for (int k = 0; k < 3; k++) {
                final int idx = m.length - 1 - (by + k);
                if (idx >= 0) w |= ((long) (m[idx] & 0xff)) << (8 * k);
            }
            d = (int) ((w >> sh) & 32767);
            e[i] = IntValue.gen(d);
        }
        return new TupleValue(e);
    }

    public static Value BOf(final Value n) { return tla(BigInteger.valueOf(((IntValue) n).val)); }
    public static Value BToInt(final Value a) { return IntValue.gen(big(a).intValueExact()); }
    public static Value BCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    public static Value BAdd(final Value a, final Value b) { return tla(big(a).add(big(b))); }
    public static Value BSub(final Value a, final Value b) { return tla(big(a).subtract(big(b))); }
    public static Value BMul(final Value a, final Value b) { return tla(big(a).multiply(big(b))); }
    public static Value BDiv(final Value a, final Value b) { return tla(big(a).divide(big(b))); }
    public static Value BMod(final Value a, final Value b) { return tla(big(a).mod(big(b))); }
    public static Value BPow(final Value a, final Value n) { return tla(big(a).pow(((IntValue) n).val)); }
    public static Value BModPow(final Value a, final Value e, final Value m) { return tla(big(a).modPow(big(e), big(m))); }
    public static Value BBits(final Value a) { return IntValue.gen(big(a).bitLength()); }
    public static Value BGcd(final Value a, final Value b) { return tla(big(a).gcd(big(b))); }
    public static Value BIsPrime(final Value p) {
        return big(p).isProbablePrime(64) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
