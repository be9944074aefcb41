import java.math.BigInteger;
import tlc2.value.impl.*;

/** BigInteger implementation of the operators of Rat.tla and LinAlg.tla's kernels. */
public class Rat {
    static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);
    static final IntValue I0 = IntValue.gen(0), I1 = IntValue.gen(1), IM1 = IntValue.gen(-1);

    /** internal rational: n/d, d > 0, lowest terms; small when both fit in 31 bits */
    static final class Q {
        final boolean small; final long n, d; final BigInteger N, D;
        Q(long n, long d) { small = true; this.n = n; this.d = d; N = null; D = null; }
        Q(BigInteger N, BigInteger D) { small = false; n = 0; d = 0; this.N = N; this.D = D; }
        BigInteger bn() { return small ? BigInteger.valueOf(n) : N; }
        BigInteger bd() { return small ? BigInteger.valueOf(d) : D; }
        int sgn() { return small ? Long.signum(n) : N.signum(); }
    }
    static final Q ZERO = new Q(0, 1), ONE = new Q(1, 1);
    static final long LIM = 1L << 31;

    static long gcd(long a, long b) { while (b != 0) { long t = a % b; a = b; b = t; } return a; }

    static Q mk(long n, long d) {
        if (n == 0) return ZERO;
        if (d < 0) { n = -n; d = -d; }
        long g = gcd(n < 0 ? -n : n, d);
        n /= g; d /= g;
        if (n > -LIM && n < LIM && d < LIM) return new Q(n, d);
        return new Q(BigInteger.valueOf(n), BigInteger.valueOf(d));
    }
    static Q mk(BigInteger n, BigInteger d) {
        int s = n.signum();
        if (s == 0) return ZERO;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        if (n.bitLength() <= 30 && d.bitLength() <= 30) return new Q(n.longValue(), d.longValue());
        return new Q(n, d);
    }
    static Q add(Q a, Q b) {
        if (a.small && b.small) {
            if (a.d == b.d) return mk(a.n + b.n, a.d);
            return mk(a.n * b.d + b.n * a.d, a.d * b.d); // < 2^63
        }
        BigInteger ad = a.bd(), bd = b.bd();
        if (ad.equals(bd)) return mk(a.bn().add(b.bn()), ad);
        return mk(a.bn().multiply(bd).add(b.bn().multiply(ad)), ad.multiply(bd));
    }
    static Q neg(Q a) { return a.small ? new Q(-a.n, a.d) : new Q(a.N.negate(), a.D); }
    static Q sub(Q a, Q b) { return add(a, neg(b)); }
    static Q mul(Q a, Q b) {
        if (a.small && b.small) return mk(a.n * b.n, a.d * b.d);
        return mk(a.bn().multiply(b.bn()), a.bd().multiply(b.bd()));
    }
    static Q div(Q a, Q b) {
        if (b.sgn() == 0) throw new RuntimeException("Rat: division by zero");
        if (a.small && b.small) return mk(a.n * b.d, a.d * b.n);
        return mk(a.bn().multiply(b.bd()), a.bd().multiply(b.bn()));
    }
    static int cmp(Q a, Q b) {
        if (a.small && b.small) return Long.compare(a.n * b.d, b.n * a.d);
        return a.bn().multiply(b.bd()).compareTo(b.bn().multiply(a.bd()));
    }

    static Value[] el(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a tuple: " + v);
        return t.elems;
    }
    static int iv(Value v) { return ((IntValue) v).val; }
    static Q q(Value v) {
        Value[] e = el(v);
        if (e.length == 4) {
            long n = iv(e[2]), d = iv(e[3]);
            return new Q(iv(e[0]) < 0 ? -n : n, d);
        }
        int s = iv(e[0]), k = iv(e[1]);
        BigInteger n = big(e, 2, 2 + k), d = big(e, 2 + k, e.length);
        if (s < 0) n = n.negate();
        if (n.bitLength() <= 30 && d.bitLength() <= 30) return new Q(n.longValue(), d.longValue());
        return new Q(n, d);
    }
    static BigInteger big(Value[] e, int from, int to) {
        BigInteger r = BigInteger.ZERO;
        for (int i = to - 1; i >= from; i--) r = r.shiftLeft(30).or(BigInteger.valueOf(iv(e[i])));
        return r;
    }
    static int nlimbs(BigInteger b) { return Math.max(1, (b.bitLength() + 29) / 30); }
    static Value v(Q a) {
        int s = a.sgn();
        if (a.small && a.n < (1L << 30) && a.n > -(1L << 30) && a.d < (1L << 30)) {
            return new TupleValue(new Value[] { s == 0 ? I0 : s > 0 ? I1 : IM1, I1,
                    IntValue.gen((int) Math.abs(a.n)), IntValue.gen((int) a.d) });
        }
        BigInteger n = a.bn().abs(), d = a.bd();
        int k = nlimbs(n), l = nlimbs(d);
        Value[] e = new Value[2 + k + l];
        e[0] = s == 0 ? I0 : s > 0 ? I1 : IM1;
        e[1] = IntValue.gen(k);
        for (int i = 0; i < k; i++) { e[2 + i] = IntValue.gen(n.and(MASK).intValue()); n = n.shiftRight(30); }
        for (int i = 0; i < l; i++) { e[2 + k + i] = IntValue.gen(d.and(MASK).intValue()); d = d.shiftRight(30); }
        return new TupleValue(e);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RFrac(Value n, Value d) { return v(mk((long) iv(n), (long) iv(d))); }
    public static Value RInt(Value n) { return v(mk((long) iv(n), 1L)); }
    public static Value RAdd(Value x, Value y) { return v(add(q(x), q(y))); }
    public static Value RSub(Value x, Value y) { return v(sub(q(x), q(y))); }
    public static Value RMul(Value x, Value y) { return v(mul(q(x), q(y))); }
    public static Value RDiv(Value x, Value y) { return v(div(q(x), q(y))); }
    public static Value RNeg(Value x) { return v(neg(q(x))); }
    public static Value RAbs(Value x) { Q a = q(x); return v(a.sgn() < 0 ? neg(a) : a); }
    public static Value RLeq(Value x, Value y) { return b(cmp(q(x), q(y)) <= 0); }
    public static Value RLt(Value x, Value y) { return b(cmp(q(x), q(y)) < 0); }
    public static Value RMax(Value x, Value y) { return cmp(q(x), q(y)) <= 0 ? y : x; }
    public static Value RMin(Value x, Value y) { return cmp(q(x), q(y)) <= 0 ? x : y; }
    public static Value RStr(Value x) {
        Q a = q(x);
        String s = a.bd().equals(BigInteger.ONE) ? a.bn().toString()
            : a.bd().bitLength() < 24 ? a.bn() + "/" + a.bd()
            : new java.math.BigDecimal(a.bn()).divide(new java.math.BigDecimal(a.bd()),
                new java.math.MathContext(15)).toString();
        return new StringValue(s);
    }
}
