import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IBoolValue;

/** Exact rationals for TLC; the definitions are those of spec/Rat.tla, without overflow. */
public class Rat {
    static final class Q {
        final BigInteger n, d;   // null when small
        final long a, b;
        Q(long a, long b) { this.a = a; this.b = b; this.n = null; this.d = null; }
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; this.a = 0; this.b = 1; }
        BigInteger num() { return n == null ? BigInteger.valueOf(a) : n; }
        BigInteger den() { return n == null ? BigInteger.valueOf(b) : d; }
        int sign() { return n == null ? Long.signum(a) : n.signum(); }
    }
    static final Q ZERO = new Q(0, 1), ONE = new Q(1, 1);
    static long gcd(long a, long b) { a = Math.abs(a); b = Math.abs(b); while (b != 0) { long t = a % b; a = b; b = t; } return a; }
    static boolean fits(long v) { return v >= -Integer.MAX_VALUE && v <= Integer.MAX_VALUE; }
    static final BigInteger LIM = BigInteger.valueOf(Integer.MAX_VALUE);
    static boolean fits(BigInteger v) { return v.abs().compareTo(LIM) <= 0; }
    static Q make(long n, long d) {
        if (d == 0) throw new RuntimeException("Rat: division by zero");
        long g = gcd(n, d);
        if (g != 1) { n /= g; d /= g; }
        if (d < 0) { n = -n; d = -d; }
        if (fits(n) && fits(d)) return new Q(n, d);
        return new Q(BigInteger.valueOf(n), BigInteger.valueOf(d));
    }
    static Q make(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (fits(n) && fits(d)) return new Q(n.longValue(), d.longValue());
        return new Q(n, d);
    }
    static Q add(Q x, Q y) {
        if (x.n == null && y.n == null) {
            if (x.b == 1 && y.b == 1) return make(x.a + y.a, 1);
            long p = x.a * y.b, q = y.a * x.b; // |.| < 2^62
            long s = p + q;
            if (((p ^ s) & (q ^ s)) >= 0) return make(s, x.b * y.b);
        }
        return make(x.num().multiply(y.den()).add(y.num().multiply(x.den())), x.den().multiply(y.den()));
    }
    static Q neg(Q x) { return x.n == null ? new Q(-x.a, x.b) : new Q(x.n.negate(), x.d); }
    static Q sub(Q x, Q y) { return add(x, neg(y)); }
    static Q mul(Q x, Q y) {
        if (x.n == null && y.n == null) return make(x.a * y.a, x.b * y.b);
        return make(x.num().multiply(y.num()), x.den().multiply(y.den()));
    }
    static Q div(Q x, Q y) {
        if (x.n == null && y.n == null) return make(x.a * y.b, x.b * y.a);
        return make(x.num().multiply(y.den()), x.den().multiply(y.num()));
    }
    static int cmp(Q x, Q y) {
        if (x.n == null && y.n == null) return Long.compare(x.a * y.b, y.a * x.b);
        return x.num().multiply(y.den()).compareTo(y.num().multiply(x.den()));
    }
    static BigInteger big(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a rational component: " + v);
    }
    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static Q q(Value v) {
        Value[] e = elems(v);
        if (e.length != 2) throw new RuntimeException("Rat: not a rational: " + v);
        if (e[0] instanceof IntValue && e[1] instanceof IntValue) {
            long a = ((IntValue) e[0]).val, b = ((IntValue) e[1]).val;
            if (a != Integer.MIN_VALUE) return b == 1 ? new Q(a, 1) : make(a, b);
        }
        return make(big(e[0]), big(e[1]));
    }
    static Value comp(BigInteger x) { return fits(x) ? IntValue.gen(x.intValue()) : new StringValue(x.toString()); }
    static Value v(Q x) {
        if (x.n == null) return new TupleValue(IntValue.gen((int) x.a), IntValue.gen((int) x.b));
        return new TupleValue(comp(x.n), comp(x.d));
    }
    static Q[] vec(Value x) { Value[] e = elems(x); Q[] r = new Q[e.length]; for (int i = 0; i < r.length; i++) r[i] = q(e[i]); return r; }
    static Value vv(Q[] x) { Value[] e = new Value[x.length]; for (int i = 0; i < e.length; i++) e[i] = v(x[i]); return new TupleValue(e); }
    static Q[][] mat(Value x) { Value[] e = elems(x); Q[][] r = new Q[e.length][]; for (int i = 0; i < r.length; i++) r[i] = vec(e[i]); return r; }
    static Value mv(Q[][] x) { Value[] e = new Value[x.length]; for (int i = 0; i < e.length; i++) e[i] = vv(x[i]); return new TupleValue(e); }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static void same(int a, int b) { if (a != b) throw new RuntimeException("Rat: vectors of lengths " + a + " and " + b); }

    public static Value RFrac(Value a, Value b) { return v(make(big(a), big(b))); }
    public static Value RAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return v(sub(q(a), q(b))); }
    public static Value RMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { return v(div(q(a), q(b))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RCmp(Value a, Value b) { return IntValue.gen(Integer.signum(cmp(q(a), q(b)))); }
    public static Value RSign(Value a) { return IntValue.gen(q(a).sign()); }
    public static Value RIsInt(Value a) { return bool(q(a).den().equals(BigInteger.ONE)); }
    public static Value REq(Value a, Value b) { return bool(cmp(q(a), q(b)) == 0); }
    public static Value RLt(Value a, Value b) { return bool(cmp(q(a), q(b)) < 0); }
    public static Value RLe(Value a, Value b) { return bool(cmp(q(a), q(b)) <= 0); }
    public static Value RIsZero(Value a) { return bool(q(a).sign() == 0); }
    public static Value RVEq(Value u, Value w) {
        Q[] x = vec(u), y = vec(w);
        if (x.length != y.length) return bool(false);
        for (int i = 0; i < x.length; i++) if (cmp(x[i], y[i]) != 0) return bool(false);
        return bool(true);
    }
    public static Value RVAdd(Value u, Value w) { Q[] x = vec(u), y = vec(w); same(x.length, y.length); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]); return vv(r); }
    public static Value RVSub(Value u, Value w) { Q[] x = vec(u), y = vec(w); same(x.length, y.length); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]); return vv(r); }
    public static Value RVScale(Value a, Value u) { Q s = q(a); Q[] x = vec(u); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = mul(s, x[i]); return vv(r); }
    static Q[] axpy(Q s, Q[] x, Q[] y) { same(x.length, y.length); if (s.sign() == 0) return y; Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = x[i].sign() == 0 ? y[i] : add(y[i], mul(s, x[i])); return r; }
    public static Value RAxpy(Value a, Value u, Value w) { return vv(axpy(q(a), vec(u), vec(w))); }
    public static Value RVNeg(Value u) { Q[] x = vec(u); Q[] r = new Q[x.length]; for (int i = 0; i < r.length; i++) r[i] = neg(x[i]); return vv(r); }
    public static Value RVZero(Value n) { Q[] r = new Q[((IntValue) n).val]; java.util.Arrays.fill(r, ZERO); return vv(r); }
    public static Value RUnit(Value n, Value k) { Q[] r = new Q[((IntValue) n).val]; java.util.Arrays.fill(r, ZERO); int kk = ((IntValue) k).val; if (kk >= 1 && kk <= r.length) r[kk - 1] = ONE; return vv(r); }
    public static Value RVIsZero(Value u) { for (Q x : vec(u)) if (x.sign() != 0) return bool(false); return bool(true); }
    public static Value RVNonNeg(Value u) { for (Q x : vec(u)) if (x.sign() < 0) return bool(false); return bool(true); }
    static Q dot(Q[] x, Q[] y) { same(x.length, y.length); Q s = ZERO; for (int i = 0; i < x.length; i++) if (x[i].sign() != 0 && y[i].sign() != 0) s = add(s, mul(x[i], y[i])); return s; }
    public static Value RDot(Value u, Value w) { return v(dot(vec(u), vec(w))); }
    public static Value RNorm2(Value u) { Q[] x = vec(u); return v(dot(x, x)); }
    public static Value RMatVec(Value m, Value u) { Q[][] M = mat(m); Q[] x = vec(u); Q[] r = new Q[M.length]; for (int i = 0; i < r.length; i++) r[i] = dot(M[i], x); return vv(r); }
    public static Value RCol(Value m, Value j) { Value[] e = elems(m); int k = ((IntValue) j).val - 1; Value[] r = new Value[e.length]; for (int i = 0; i < r.length; i++) r[i] = elems(e[i])[k]; return new TupleValue(r); }
    static Q[] vecmat(Q[] x, Q[][] M, int n) {
        same(x.length, M.length);
        Q[] r = new Q[n];
        for (int j = 0; j < n; j++) { Q s = ZERO; for (int i = 0; i < x.length; i++) if (x[i].sign() != 0 && M[i][j].sign() != 0) s = add(s, mul(x[i], M[i][j])); r[j] = s; }
        return r;
    }
    public static Value RVecMat(Value u, Value m, Value n) { return vv(vecmat(vec(u), mat(m), ((IntValue) n).val)); }
    public static Value RMatMul(Value a, Value b, Value n) { Q[][] A = mat(a), B = mat(b); int k = ((IntValue) n).val; Q[][] r = new Q[A.length][]; for (int i = 0; i < r.length; i++) r[i] = vecmat(A[i], B, k); return mv(r); }
    public static Value RIdentity(Value n) { int k = ((IntValue) n).val; Q[][] r = new Q[k][k]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r[i][j] = i == j ? ONE : ZERO; return mv(r); }
    public static Value RMatEq(Value a, Value b) { Value[] x = elems(a), y = elems(b); if (x.length != y.length) return bool(false); for (int i = 0; i < x.length; i++) if (RVEq(x[i], y[i]) == BoolValue.ValFalse) return bool(false); return bool(true); }
    public static Value RPivot(Value m, Value rr, Value cc) {
        Q[][] M = mat(m); int r = ((IntValue) rr).val - 1, c = ((IntValue) cc).val - 1;
        Q inv = div(ONE, M[r][c]); Q[] p = new Q[M[r].length];
        for (int j = 0; j < p.length; j++) p[j] = mul(inv, M[r][j]);
        Q[][] out = new Q[M.length][];
        for (int i = 0; i < out.length; i++) out[i] = i == r ? p : axpy(neg(M[i][c]), p, M[i]);
        return mv(out);
    }
    public static Value RFirstNeg(Value u, Value n) {
        Value[] e = elems(u); int k = ((IntValue) n).val;
        for (int j = 0; j < k; j++) if (q(e[j]).sign() < 0) return IntValue.gen(j + 1);
        return IntValue.gen(0);
    }
    public static Value RRatioRow(Value t, Value bb, Value mm, Value jj, Value ll) {
        Value[] rows = elems(t), B = elems(bb); int m = ((IntValue) mm).val, j = ((IntValue) jj).val - 1, l = ((IntValue) ll).val - 1;
        int best = -1; Q br = null; int bi = 0;
        for (int i = 0; i < m; i++) {
            Value[] r = elems(rows[i]); Q p = q(r[j]);
            if (p.sign() <= 0) continue;
            Q ratio = div(q(r[l]), p); int idx = ((IntValue) B[i]).val;
            int c = best < 0 ? -1 : cmp(ratio, br);
            if (c < 0 || (c == 0 && idx < bi)) { best = i; br = ratio; bi = idx; }
        }
        return IntValue.gen(best + 1);
    }
}
