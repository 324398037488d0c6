import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of spec/Rns.tla, by the same names. */
public class Rns {
    static BigInteger[] arr(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = BigNat.big(e[i]);
        return r;
    }

    static BigInteger prod(final BigInteger[] m) {
        BigInteger q = BigInteger.ONE;
        for (final BigInteger x : m) q = q.multiply(x);
        return q;
    }

    private static BigInteger[] garner(final BigInteger[] m, final BigInteger q) {
        final BigInteger[] g = new BigInteger[m.length];
        for (int i = 0; i < m.length; i++) {
            final BigInteger star = q.divide(m[i]);
            g[i] = star.multiply(star.modInverse(m[i]));
        }
        return g;
    }

    public static Value Lift(final Value r, final Value ms) {
        final BigInteger[] m = arr(ms), x = arr(r);
        final BigInteger q = prod(m);
        final BigInteger[] g = garner(m, q);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < m.length; i++) s = s.add(x[i].multiply(g[i]));
        return BigNat.tla(s.mod(q));
    }

    static BigInteger[] lift(final Value rows, final BigInteger[] m) {
        final Value[] rw = ((TupleValue) rows.toTuple()).elems;
        final BigInteger q = prod(m);
        final BigInteger[] g = garner(m, q);
        BigInteger[] out = null;
        for (int i = 0; i < m.length; i++) {
            final BigInteger[] x = arr(rw[i]);
            if (out == null) {
                out = new BigInteger[x.length];
                java.util.Arrays.fill(out, BigInteger.ZERO);
            }
            for (int k = 0; k < x.length; k++) out[k] = out[k].add(x[k].multiply(g[i]));
        }
        for (int k = 0; k < out.length; k++) out[k] = out[k].mod(q);
        return out;
    }

    public static Value PLift(final Value rows, final Value ms) {
        final BigInteger[] a = lift(rows, arr(ms));
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = BigNat.tla(a[i]);
        return new TupleValue(e);
    }

    public static Value IsRows(final Value rows, final Value n, final Value ms) {
        final Value t = (Value) rows.toTuple();
        if (t == null) return BoolValue.ValFalse;
        final Value[] rw = ((TupleValue) t).elems;
        final Value[] mv = ((TupleValue) ms.toTuple()).elems;
        if (rw.length != mv.length) return BoolValue.ValFalse;
        for (int i = 0; i < rw.length; i++)
            if (BigPoly.IsPoly(rw[i], n, mv[i]) != BoolValue.ValTrue) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    private static final int SLACK = 40;

    private static void roundSet(final java.util.List<BigInteger> acc, final BigInteger c, final BigInteger num,
            final BigInteger den, final boolean neg) {
        final BigInteger d2 = den.shiftLeft(1);
        final BigInteger s = num.multiply(c).shiftLeft(1).add(den);
        final BigInteger[] qr = s.divideAndRemainder(d2);
        final BigInteger eps = d2.shiftRight(SLACK);
        add(acc, qr[0], neg);
        if (qr[1].compareTo(eps) <= 0 && qr[0].signum() != 0) add(acc, qr[0].subtract(BigInteger.ONE), neg);
        if (d2.subtract(qr[1]).compareTo(eps) <= 0) add(acc, qr[0].add(BigInteger.ONE), neg);
    }

    private static void add(final java.util.List<BigInteger> acc, final BigInteger m, final boolean neg) {
        acc.add(neg ? m.negate() : m);
    }

    private static boolean scaled(final BigInteger x, final BigInteger q, final BigInteger num, final BigInteger den,
            final BigInteger[] out, final BigInteger[] to) {
        final java.util.List<BigInteger> c = new java.util.ArrayList<>();
        final BigInteger x2 = x.shiftLeft(1);
        final boolean tie = x2.subtract(q).abs().compareTo(q.shiftRight(SLACK)) <= 0;
        if (tie || x2.compareTo(q) < 0) roundSet(c, x, num, den, false);
        if (tie || x2.compareTo(q) >= 0) roundSet(c, q.subtract(x), num, den, true);
        next:
        for (final BigInteger s : c) {
            for (int i = 0; i < to.length; i++) if (!s.mod(to[i]).equals(out[i])) continue next;
            return true;
        }
        return false;
    }

    public static Value IsScaled(final Value x, final Value q, final Value num, final Value den, final Value out,
            final Value to) {
        return scaled(BigNat.big(x), BigNat.big(q), BigNat.big(num), BigNat.big(den), arr(out), arr(to))
                ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value IsScaledRows(final Value rows, final Value ms, final Value num, final Value den,
            final Value out, final Value to) {
        final BigInteger[] m = arr(ms), t = arr(to);
        final BigInteger[] a = lift(rows, m);
        final BigInteger q = prod(m), nu = BigNat.big(num), de = BigNat.big(den);
        final Value[] ov = ((TupleValue) out.toTuple()).elems;
        final BigInteger[][] o = new BigInteger[t.length][];
        for (int i = 0; i < t.length; i++) o[i] = arr(ov[i]);
        final BigInteger[] col = new BigInteger[t.length];
        for (int k = 0; k < a.length; k++) {
            for (int i = 0; i < t.length; i++) col[i] = o[i][k];
            if (!scaled(a[k], q, nu, de, col, t)) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    private static Value tup(final BigInteger[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = BigNat.tla(a[i]);
        return new TupleValue(e);
    }

    private static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value PIsScaled(final Value a, final Value q, final Value num, final Value den, final Value out,
            final Value to) {
        final BigInteger[] x = arr(a), o = arr(out), t = { BigNat.big(to) };
        final BigInteger qq = BigNat.big(q), nu = BigNat.big(num), de = BigNat.big(den);
        if (x.length != o.length) return BoolValue.ValFalse;
        for (int k = 0; k < x.length; k++)
            if (!scaled(x[k], qq, nu, de, new BigInteger[] { o[k] }, t)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    private static BigInteger round(final BigInteger c, final BigInteger num, final BigInteger den) {
        return num.multiply(c).shiftLeft(1).add(den).divide(den.shiftLeft(1));
    }

    public static Value PRoundMod(final Value a, final Value num, final Value den, final Value m) {
        final BigInteger[] x = arr(a);
        final BigInteger nu = BigNat.big(num), de = BigNat.big(den), mm = BigNat.big(m);
        for (int k = 0; k < x.length; k++) x[k] = round(x[k], nu, de).mod(mm);
        return tup(x);
    }

    public static Value PRoundSigned(final Value a, final Value M, final Value num, final Value den, final Value m) {
        final BigInteger[] x = arr(a);
        final BigInteger big = BigNat.big(M), nu = BigNat.big(num), de = BigNat.big(den), mm = BigNat.big(m);
        for (int k = 0; k < x.length; k++)
            x[k] = big.compareTo(x[k].shiftLeft(1)) < 0 ? round(big.subtract(x[k]), nu, de).negate().mod(mm)
                    : round(x[k], nu, de).mod(mm);
        return tup(x);
    }

    public static Value PCentered(final Value a, final Value q, final Value M) {
        final BigInteger[] x = arr(a);
        final BigInteger big = BigNat.big(M), qq = BigNat.big(q);
        for (int k = 0; k < x.length; k++)
            if (qq.compareTo(x[k].shiftLeft(1)) < 0) x[k] = big.subtract(qq.subtract(x[k]));
        return tup(x);
    }

    public static Value PNearHalf(final Value a, final Value q) {
        final BigInteger qq = BigNat.big(q), eps = qq.shiftRight(SLACK);
        for (final BigInteger x : arr(a))
            if (x.shiftLeft(1).subtract(qq).abs().compareTo(eps) <= 0) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }

    public static Value L1(final Value a, final Value q) {
        final BigInteger qq = BigNat.big(q);
        BigInteger s = BigInteger.ZERO;
        for (final BigInteger x : arr(a)) {
            final BigInteger y = x.mod(qq);
            s = s.add(y.min(qq.subtract(y)));
        }
        return BigNat.tla(s);
    }
}
