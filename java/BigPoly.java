import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of spec/BigPoly.tla, by the same names. */
public class BigPoly {
    private static BigInteger[] arr(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = BigNat.big(e[i]);
        return r;
    }

    private static Value tup(final BigInteger[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = BigNat.tla(a[i]);
        return new TupleValue(e);
    }

    public static Value IsPoly(final Value a, final Value n, final Value q) {
        final Value t = (Value) a.toTuple();
        if (t == null) return BoolValue.ValFalse;
        final Value[] e = ((TupleValue) t).elems;
        if (e.length != ((IntValue) n).val) return BoolValue.ValFalse;
        final BigInteger qq = BigNat.big(q);
        for (final Value x : e) {
            final Value xt = (Value) x.toTuple();
            if (xt == null) return BoolValue.ValFalse;
            final Value[] d = ((TupleValue) xt).elems;
            for (final Value y : d) {
                final int v = ((IntValue) y).val;
                if (v < 0 || v >= 32768) return BoolValue.ValFalse;
            }
            if (d.length > 0 && ((IntValue) d[d.length - 1]).val == 0) return BoolValue.ValFalse;
            if (BigNat.big(x).compareTo(qq) >= 0) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    public static Value PDot(final Value a, final Value b, final Value q) {
        final BigInteger[] x = arr(a), y = arr(b);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.length; i++) s = s.add(x[i].multiply(y[i]));
        return BigNat.tla(s.mod(BigNat.big(q)));
    }

    public static Value PSelect(final Value f, final Value sel, final Value w, final Value q) {
        final Value[] rows = ((TupleValue) f.toTuple()).elems, s = ((TupleValue) sel.toTuple()).elems;
        final BigInteger[] r = new BigInteger[((IntValue) w).val];
        final BigInteger m = BigNat.big(q);
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (int i = 0; i < rows.length; i++) {
            if (((IntValue) s[i]).val != 1) continue;
            final BigInteger[] x = arr(rows[i]);
            for (int k = 0; k < r.length; k++) r[k] = r[k].add(x[k]).mod(m);
        }
        return tup(r);
    }

    public static Value PAdd(final Value a, final Value b, final Value q) {
        final BigInteger[] x = arr(a), y = arr(b);
        final BigInteger m = BigNat.big(q);
        for (int i = 0; i < x.length; i++) x[i] = x[i].add(y[i]).mod(m);
        return tup(x);
    }

    public static Value PSub(final Value a, final Value b, final Value q) {
        final BigInteger[] x = arr(a), y = arr(b);
        final BigInteger m = BigNat.big(q);
        for (int i = 0; i < x.length; i++) x[i] = x[i].subtract(y[i]).mod(m);
        return tup(x);
    }

    public static Value PPointMul(final Value a, final Value b, final Value q) {
        final BigInteger[] x = arr(a), y = arr(b);
        final BigInteger m = BigNat.big(q);
        for (int i = 0; i < x.length; i++) x[i] = x[i].multiply(y[i]).mod(m);
        return tup(x);
    }

    public static Value PScale(final Value a, final Value c, final Value q) {
        final BigInteger[] x = arr(a);
        final BigInteger m = BigNat.big(q), cc = BigNat.big(c);
        for (int i = 0; i < x.length; i++) x[i] = x[i].multiply(cc).mod(m);
        return tup(x);
    }

    public static Value PRed(final Value a, final Value q) {
        final BigInteger[] x = arr(a);
        final BigInteger m = BigNat.big(q);
        for (int i = 0; i < x.length; i++) x[i] = x[i].mod(m);
        return tup(x);
    }

    /* one large product: the coefficients side by side in one number */
    private static BigInteger pack(final BigInteger[] x, final int w) {
        final byte[] buf = new byte[x.length * w + 1];
        for (int i = 0; i < x.length; i++) {
            final byte[] c = x[i].toByteArray();
            final int end = buf.length - i * w;
            for (int j = 0; j < c.length && j < w; j++) buf[end - 1 - j] = c[c.length - 1 - j];
        }
        return new BigInteger(buf);
    }

    public static Value PMul(final Value a, final Value b, final Value q) {
        final BigInteger[] x = arr(a), y = arr(b);
        final BigInteger m = BigNat.big(q);
        final int n = x.length;
        int bx = 1, by = 1;
        for (int i = 0; i < n; i++) {
            bx = Math.max(bx, x[i].bitLength());
            by = Math.max(by, y[i].bitLength());
        }
        final int w = (bx + by + 32) / 8 + 1;
        final byte[] p = pack(x, w).multiply(pack(y, w)).toByteArray();
        final BigInteger[] c = new BigInteger[2 * n];
        for (int i = 0; i < 2 * n; i++) {
            final byte[] d = new byte[w + 1];
            for (int j = 0; j < w; j++) {
                final int k = p.length - 1 - i * w - j;
                d[w - j] = k >= 0 ? p[k] : 0;
            }
            c[i] = new BigInteger(d);
        }
        final BigInteger[] r = new BigInteger[n];
        for (int i = 0; i < n; i++) r[i] = c[i].subtract(c[i + n]).mod(m);
        return tup(r);
    }

    public static Value PSubst(final Value a, final Value kk, final Value q) {
        final BigInteger[] x = arr(a);
        final BigInteger m = BigNat.big(q);
        final int n = x.length;
        final long k = ((IntValue) kk).val;
        final BigInteger[] r = new BigInteger[n];
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (int i = 0; i < n; i++) {
            final int e = (int) ((i * k) % (2L * n));
            if (e >= n) r[e - n] = r[e - n].subtract(x[i]);
            else r[e] = r[e].add(x[i]);
        }
        for (int i = 0; i < n; i++) r[i] = r[i].mod(m);
        return tup(r);
    }

    public static Value PNorm(final Value a, final Value q) {
        final BigInteger[] x = arr(a);
        final BigInteger m = BigNat.big(q);
        BigInteger r = BigInteger.ZERO;
        for (BigInteger v : x) {
            v = v.mod(m);
            r = r.max(v.min(v.signum() == 0 ? v : m.subtract(v)));
        }
        return BigNat.tla(r);
    }

    private static BigInteger eval(final BigInteger[] x, final BigInteger z, final BigInteger m) {
        BigInteger r = BigInteger.ZERO;
        for (int i = x.length - 1; i >= 0; i--) r = r.multiply(z).add(x[i]).mod(m);
        return r;
    }

    public static Value PEval(final Value a, final Value z, final Value q) {
        return BigNat.tla(eval(arr(a), BigNat.big(z), BigNat.big(q)));
    }

    /* odd moduli below 2^62: Montgomery arithmetic with machine words */
    private static long redc(final long hi, final long lo, final long m, final long ninv) {
        final long u = lo * ninv;
        final long t = unsignedHigh(u, m);
        final long r = hi - t;          // lo parts cancel: u m = lo modulo 2^64
        return r < 0 ? r + m : r;
    }
    private static long unsignedHigh(final long a, final long b) {
        return Math.multiplyHigh(a, b) + ((a >> 63) & b) + ((b >> 63) & a);
    }

    public static Value PEvalAll(final Value a, final Value zs, final Value q) {
        final BigInteger[] x = arr(a), z = arr(zs), r = new BigInteger[z.length];
        final BigInteger m = BigNat.big(q);
        if (m.testBit(0) && m.bitLength() > 1 && m.bitLength() <= 62) {
            final long p = m.longValueExact();
            long inv = p;               // p^-1 modulo 2^64
            for (int i = 0; i < 6; i++) inv *= 2 - p * inv;
            final long[] c = new long[x.length];
            for (int i = 0; i < x.length; i++) c[i] = x[i].mod(m).longValueExact();
            for (int i = 0; i < z.length; i++) {
                final long w = z[i].mod(m).shiftLeft(64).mod(m).longValueExact();
                long v = 0;
                for (int j = c.length - 1; j >= 0; j--) {
                    v = redc(Math.multiplyHigh(v, w), v * w, p, inv) + c[j];
                    if (v >= p) v -= p;
                }
                r[i] = BigInteger.valueOf(v);
            }
            return tup(r);
        }
        for (int i = 0; i < z.length; i++) r[i] = eval(x, z[i], m);
        return tup(r);
    }

    public static Value PInt(final Value a, final Value q) {
        final Value[] e = ((TupleValue) a.toTuple()).elems;
        final BigInteger m = BigNat.big(q);
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = BigInteger.valueOf(((IntValue) e[i]).val).mod(m);
        return tup(r);
    }
}
