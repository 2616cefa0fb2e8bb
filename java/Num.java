// TLC overrides for module Num: exact rationals extended with NaN and the two infinities,
// carried as TLA+ strings "n", "n/d", "nan", "inf", "-inf".  IEEE rules for NaN and infinities.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
    static final int NAN = 2, PINF = 1, NINF = -1, FIN = 0;
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    static final class R {
        final int k; final BigInteger n, d;
        R(int k) { this.k = k; n = ZERO; d = ONE; }
        R(BigInteger n, BigInteger d) {
            k = FIN;
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            if (n.bitLength() > 700 || d.bitLength() > 700) {
                // keep 256 significant bits
                int sh = 256 - (n.bitLength() - d.bitLength());
                BigInteger q = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d.shiftLeft(-sh));
                if (sh >= 0) { n = q; d = ONE.shiftLeft(sh); } else { n = q.shiftLeft(-sh); d = ONE; }
                if (n.signum() == 0) d = ONE;
                BigInteger g = n.gcd(d);
                if (g.signum() != 0 && !g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
        int sgn() { return k == FIN ? n.signum() : (k == NAN ? 0 : k); }
        double dbl() {
            if (k == NAN) return Double.NaN; if (k == PINF) return Double.POSITIVE_INFINITY;
            if (k == NINF) return Double.NEGATIVE_INFINITY;
            return new BigDecimal(n).divide(new BigDecimal(d), MathContext.DECIMAL128).doubleValue();
        }
    }
    static final R RNAN = new R(NAN), RINF = new R(PINF), RNINF = new R(NINF);
    static final ConcurrentHashMap<Integer, R> cache = new ConcurrentHashMap<>();

    static R p(Value v) {
        if (v instanceof IntValue) return new R(BigInteger.valueOf(((IntValue) v).val), ONE);
        UniqueString u = ((StringValue) v).getVal();
        R r = cache.get(u.getTok());
        if (r != null) return r;
        String s = u.toString();
        r = parse(s);
        if (cache.size() > 400000) cache.clear();
        cache.put(u.getTok(), r);
        return r;
    }
    static R parse(String s) {
        switch (s) { case "nan": return RNAN; case "inf": return RINF; case "-inf": return RNINF; }
        int i = s.indexOf('/');
        if (i >= 0) return new R(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        return new R(new BigInteger(s), ONE);
    }
    static Value v(R r) {
        String s;
        if (r.k == NAN) s = "nan"; else if (r.k == PINF) s = "inf"; else if (r.k == NINF) s = "-inf";
        else if (r.d.equals(ONE)) s = r.n.toString(); else s = r.n + "/" + r.d;
        UniqueString u = UniqueString.uniqueStringOf(s);
        return new StringValue(u);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static R neg(R a) { return a.k == NAN ? a : a.k != FIN ? (a.k == PINF ? RNINF : RINF) : new R(a.n.negate(), a.d); }
    static R add(R a, R c) {
        if (a.k == NAN || c.k == NAN) return RNAN;
        if (a.k != FIN) return c.k != FIN && c.k != a.k ? RNAN : a;
        if (c.k != FIN) return c;
        if (a.d.equals(c.d)) return new R(a.n.add(c.n), a.d);
        return new R(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
    }
    static R mul(R a, R c) {
        if (a.k == NAN || c.k == NAN) return RNAN;
        if (a.k != FIN || c.k != FIN) { int s = a.sgn() * c.sgn(); return s == 0 ? RNAN : s > 0 ? RINF : RNINF; }
        return new R(a.n.multiply(c.n), a.d.multiply(c.d));
    }
    static R div(R a, R c) {
        if (a.k == NAN || c.k == NAN) return RNAN;
        if (c.k != FIN) return a.k != FIN ? RNAN : new R(ZERO, ONE);
        if (c.sgn() == 0) return a.sgn() == 0 ? RNAN : a.sgn() > 0 ? RINF : RNINF;
        if (a.k != FIN) return a.sgn() * c.sgn() > 0 ? RINF : RNINF;
        return new R(a.n.multiply(c.d), a.d.multiply(c.n));
    }
    static int cmp(R a, R c) { // no NaN
        if (a.k != FIN || c.k != FIN) return Integer.compare(a.k, c.k);
        return a.n.multiply(c.d).compareTo(c.n.multiply(a.d));
    }
    static boolean nn(R a, R c) { return a.k != NAN && c.k != NAN; }
    static R abs(R a) { return a.sgn() < 0 ? neg(a) : a; }
    static final R RTOL = new R(ONE, BigInteger.TEN.pow(9)), ATOL = new R(ONE, BigInteger.TEN.pow(12));
    static boolean close(R a, R c, R rt, R at) {
        if (a.k != FIN || c.k != FIN) return false;
        R dlt = abs(add(a, neg(c)));
        R m = cmp(abs(a), abs(c)) >= 0 ? abs(a) : abs(c);
        R lim = mul(m, rt);
        if (cmp(lim, at) < 0) lim = at;
        return cmp(dlt, lim) <= 0;
    }

    public static Value NAdd(Value a, Value c) { return v(add(p(a), p(c))); }
    public static Value NSub(Value a, Value c) { return v(add(p(a), neg(p(c)))); }
    public static Value NMul(Value a, Value c) { return v(mul(p(a), p(c))); }
    public static Value NDiv(Value a, Value c) { return v(div(p(a), p(c))); }
    public static Value NNeg(Value a) { return v(neg(p(a))); }
    public static Value NAbs(Value a) { return v(abs(p(a))); }
    public static Value NLt(Value a, Value c) { R x = p(a), y = p(c); return b(nn(x, y) && cmp(x, y) < 0); }
    public static Value NLe(Value a, Value c) { R x = p(a), y = p(c); return b(nn(x, y) && cmp(x, y) <= 0); }
    public static Value NGt(Value a, Value c) { return NLt(c, a); }
    public static Value NGe(Value a, Value c) { return NLe(c, a); }
    public static Value NEq(Value a, Value c) { R x = p(a), y = p(c); return b(nn(x, y) && cmp(x, y) == 0); }
    public static Value NIsNaN(Value a) { return b(p(a).k == NAN); }
    public static Value NIsInf(Value a) { R x = p(a); return b(x.k == PINF || x.k == NINF); }
    public static Value NIsFin(Value a) { return b(p(a).k == FIN); }
    public static Value NMin(Value a, Value c) {
        R x = p(a), y = p(c); if (!nn(x, y)) return v(RNAN); return cmp(x, y) <= 0 ? v(x) : v(y); }
    public static Value NMax(Value a, Value c) {
        R x = p(a), y = p(c); if (!nn(x, y)) return v(RNAN); return cmp(x, y) >= 0 ? v(x) : v(y); }
    public static Value NSgn(Value a) { return IntValue.gen(p(a).sgn()); }
    public static Value NFloor(Value a) {
        R x = p(a); if (x.k != FIN) return v(x);
        BigInteger[] q = x.n.divideAndRemainder(x.d);
        BigInteger f = q[1].signum() < 0 ? q[0].subtract(ONE) : q[0];
        return v(new R(f, ONE)); }
    public static Value NInt(Value a) { return IntValue.gen(p(a).n.divide(p(a).d).intValueExact()); }
    public static Value NNum(Value a) { return v(p(a)); }
    // |a - c| <= max(rt * max(|a|,|c|), at), finite arguments only
    public static Value NNear(Value a, Value c, Value rt, Value at) { return b(close(p(a), p(c), p(rt), p(at))); }
    // library tolerance
    public static Value NClose(Value a, Value c) { return b(close(p(a), p(c), RTOL, ATOL)); }
    // equal as an observation: both NaN, the same infinity, or within relative/absolute tolerance
    public static Value NSame(Value a, Value c, Value rt, Value at) {
        R x = p(a), y = p(c);
        if (x.k != FIN || y.k != FIN) return b(x.k == y.k);
        return b(close(x, y, p(rt), p(at))); }
    public static Value NSqrt(Value a) {
        R x = p(a); if (x.k == NAN || x.sgn() < 0) return v(RNAN); if (x.k != FIN) return v(x);
        int sh = Math.max(0, 240 - (x.n.bitLength() - x.d.bitLength())); if ((sh & 1) == 1) sh++;
        BigInteger q = x.n.shiftLeft(sh).divide(x.d).sqrt();
        return v(new R(q, ONE.shiftLeft(sh / 2))); }
    static R fromDouble(double d) {
        if (Double.isNaN(d)) return RNAN; if (Double.isInfinite(d)) return d > 0 ? RINF : RNINF;
        BigDecimal bd = new BigDecimal(d);
        return bd.scale() > 0 ? new R(bd.unscaledValue(), BigInteger.TEN.pow(bd.scale()))
                              : new R(bd.toBigIntegerExact(), ONE); }
    // double-precision transcendental functions (compared with tolerance only)
    public static Value NPow(Value a, Value c) { return v(fromDouble(Math.pow(p(a).dbl(), p(c).dbl()))); }
    public static Value NLog(Value a) { return v(fromDouble(Math.log(p(a).dbl()))); }
    // exact sums over sequences
    public static Value NSum(Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems; R t = new R(ZERO, ONE);
        for (Value x : e) t = add(t, p(x)); return v(t); }
}
