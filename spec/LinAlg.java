import tlc2.value.impl.*;
import java.util.*;

/** Overrides of the kernels of LinAlg.tla (same meaning, fewer interpreter steps). */
public class LinAlg {
    static Rat.Q[] vec(Value v) {
        Value[] e = Rat.el(v); Rat.Q[] r = new Rat.Q[e.length];
        for (int i = 0; i < r.length; i++) r[i] = Rat.q(e[i]);
        return r;
    }
    static Rat.Q[][] mat(Value v) {
        Value[] e = Rat.el(v); Rat.Q[][] r = new Rat.Q[e.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value out(Rat.Q[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = Rat.v(a[i]);
        return new TupleValue(e);
    }
    static Value out(Rat.Q[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = out(a[i]);
        return new TupleValue(e);
    }
    static void same(int a, int b) { if (a != b) throw new RuntimeException("LinAlg: sizes " + a + " and " + b); }
    static Rat.Q dot(Rat.Q[] u, Rat.Q[] w) {
        same(u.length, w.length);
        Rat.Q s = Rat.ZERO;
        for (int i = 0; i < u.length; i++) if (u[i].sgn() != 0 && w[i].sgn() != 0) s = Rat.add(s, Rat.mul(u[i], w[i]));
        return s;
    }
    public static Value Sum(Value s) { Rat.Q r = Rat.ZERO; for (Rat.Q x : vec(s)) r = Rat.add(r, x); return Rat.v(r); }
    public static Value Dot(Value u, Value w) { return Rat.v(dot(vec(u), vec(w))); }
    public static Value VAdd(Value u, Value w) { return out(comb(vec(u), vec(w), false)); }
    public static Value VSub(Value u, Value w) { return out(comb(vec(u), vec(w), true)); }
    static Rat.Q[] comb(Rat.Q[] a, Rat.Q[] b, boolean minus) {
        same(a.length, b.length);
        Rat.Q[] r = new Rat.Q[a.length];
        for (int i = 0; i < r.length; i++) r[i] = minus ? Rat.sub(a[i], b[i]) : Rat.add(a[i], b[i]);
        return r;
    }
    public static Value VScale(Value k, Value u) {
        Rat.Q q = Rat.q(k); Rat.Q[] a = vec(u);
        for (int i = 0; i < a.length; i++) a[i] = Rat.mul(q, a[i]);
        return out(a);
    }
    public static Value VNeg(Value u) { Rat.Q[] a = vec(u); for (int i = 0; i < a.length; i++) a[i] = Rat.neg(a[i]); return out(a); }
    public static Value MatVec(Value M, Value w) {
        Rat.Q[][] m = mat(M); Rat.Q[] x = vec(w); Rat.Q[] r = new Rat.Q[m.length];
        for (int i = 0; i < r.length; i++) r[i] = dot(m[i], x);
        return out(r);
    }
    static Rat.Q[] tvec(Rat.Q[][] m, Rat.Q[] x, int n) {
        same(m.length, x.length);
        Rat.Q[] r = new Rat.Q[n]; Arrays.fill(r, Rat.ZERO);
        for (int i = 0; i < m.length; i++) {
            same(m[i].length, n);
            if (x[i].sgn() != 0) for (int j = 0; j < n; j++) if (m[i][j].sgn() != 0) r[j] = Rat.add(r[j], Rat.mul(m[i][j], x[i]));
        }
        return r;
    }
    public static Value MatTVec(Value M, Value w, Value n) { return out(tvec(mat(M), vec(w), Rat.iv(n))); }
    public static Value Transp(Value M, Value n) {
        Rat.Q[][] m = mat(M); int c = Rat.iv(n); Rat.Q[][] r = new Rat.Q[c][m.length];
        for (int i = 0; i < m.length; i++) { same(m[i].length, c); for (int j = 0; j < c; j++) r[j][i] = m[i][j]; }
        return out(r);
    }
    public static Value MatMul(Value M, Value N, Value n) {
        Rat.Q[][] a = mat(M), b = mat(N); int c = Rat.iv(n); Rat.Q[][] r = new Rat.Q[a.length][];
        for (int i = 0; i < a.length; i++) r[i] = tvec(b, a[i], c);
        return out(r);
    }
    public static Value MAdd(Value M, Value N) { return mc(M, N, false); }
    public static Value MSub(Value M, Value N) { return mc(M, N, true); }
    static Value mc(Value M, Value N, boolean minus) {
        Rat.Q[][] a = mat(M), b = mat(N); same(a.length, b.length);
        Rat.Q[][] r = new Rat.Q[a.length][];
        for (int i = 0; i < r.length; i++) r[i] = comb(a[i], b[i], minus);
        return out(r);
    }
    public static Value MScale(Value k, Value M) {
        Rat.Q q = Rat.q(k); Rat.Q[][] a = mat(M);
        for (Rat.Q[] row : a) for (int i = 0; i < row.length; i++) row[i] = Rat.mul(q, row[i]);
        return out(a);
    }
    public static Value MaxAbs(Value s) {
        Rat.Q r = Rat.ZERO;
        for (Rat.Q x : vec(s)) { Rat.Q a = x.sgn() < 0 ? Rat.neg(x) : x; if (Rat.cmp(r, a) < 0) r = a; }
        return Rat.v(r);
    }
    public static Value Rref(Value M, Value nn) {
        Rat.Q[][] m = mat(M); int n = Rat.iv(nn), r = 0; List<Value> piv = new ArrayList<>();
        for (int c = 0; c < n && r < m.length; c++) {
            int k = r; while (k < m.length && m[k][c].sgn() == 0) k++;
            if (k == m.length) continue;
            Rat.Q[] t = m[r]; m[r] = m[k]; m[k] = t;
            Rat.Q p = Rat.div(Rat.ONE, m[r][c]);
            for (int j = 0; j < m[r].length; j++) m[r][j] = Rat.mul(p, m[r][j]);
            for (int i = 0; i < m.length; i++) if (i != r && m[i][c].sgn() != 0) {
                Rat.Q f = m[i][c];
                for (int j = 0; j < m[i].length; j++) if (m[r][j].sgn() != 0) m[i][j] = Rat.sub(m[i][j], Rat.mul(f, m[r][j]));
            }
            piv.add(IntValue.gen(c + 1)); r++;
        }
        return new TupleValue(new Value[] { out(m), new TupleValue(piv.toArray(new Value[0])) });
    }
}
