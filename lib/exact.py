"""Exact rational LP / QP over Fractions.  Everything computed here is an untrusted *witness*: TLC re-checks each
one (feasible point, Farkas vector, dual solution, ray, KKT pair) exactly before it is used to judge the code."""
from fractions import Fraction as F
from math import gcd
from functools import reduce
import itertools

def dot(u, v):
    s = F(0)
    for a, b in zip(u, v):
        if a and b:
            s += a * b
    return s
def matvec(M, v):
    return [dot(r, v) for r in M]
def tvec(M, y, n):
    return [sum((M[i][j] * y[i] for i in range(len(M)) if y[i] and M[i][j]), F(0)) for j in range(n)]
def matmul(A, B):
    n = len(B[0]) if B else 0
    return [tvec(B, r, n) for r in A]
def transpose(M, n):
    return [[r[j] for r in M] for j in range(n)]
def madd(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]
def eye(n):
    return [[F(int(i == j)) for j in range(n)] for i in range(n)]

def _introw(row):
    """scale a Fraction row to coprime integers (positive factor)"""
    l = 1
    for x in row:
        l = l * x.denominator // gcd(l, x.denominator)
    r = [int(x * l) for x in row]
    g = 0
    for x in r:
        if x:
            g = gcd(g, x)
            if g == 1:
                break
    if g > 1:
        r = [x // g for x in r]
    return r

def rref(M, ncols):
    """reduced row echelon form over Fractions, returns (rows, pivots)"""
    M = [list(map(F, r)) for r in M]
    piv = []
    r = 0
    for c in range(ncols):
        k = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if k is None:
            continue
        M[r], M[k] = M[k], M[r]
        p = M[r][c]
        M[r] = [x / p for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == len(M):
            break
    return M, piv

def rank(M, n):
    return len(rref(M, n)[1]) if M else 0

def solve(M, r):
    """unique solution of a square system or None"""
    n = len(M)
    if n == 0:
        return []
    R, piv = rref([list(a) + [b] for a, b in zip(M, r)], n)
    if len(piv) < n:
        return None
    return [R[i][n] for i in range(n)]

class Simplex:
    """min c'x, A x <= b, C x = d, x free.  Integer tableau with Bland's rule.
    status 'opt': x, y (>=0, for A), z (free, for C):  c + A'y + C'z = 0,  c'x = -(b'y + d'z)
    status 'inf': y >= 0, z with A'y + C'z = 0, b'y + d'z < 0
    status 'unb': x feasible, ray r with A r <= 0, C r = 0, c'r < 0"""
    def __init__(self, c, A, b, C=(), d=()):
        c = [F(v) for v in c]
        n = len(c)
        m, p = len(A), len(C)
        # columns: x+ (n), x- (n), slack (m), artificial (m+p), rhs
        rows, self.sgn = [], []
        ncol = 2 * n + m + (m + p)
        basis = []
        for i in range(m + p):
            a = A[i] if i < m else C[i - m]
            r = b[i] if i < m else d[i - m]
            a = [F(v) for v in a]
            r = F(r)
            s = 1
            # artificial only when necessary
            row = a + [-v for v in a] + [F(int(j == i)) for j in range(m)] + [F(0)] * (m + p) + [r]
            if r < 0:
                row = [-v for v in row]
                s = -1
            if i < m and s == 1:
                basis.append(2 * n + i)
            else:
                row[2 * n + m + i] = F(1)
                basis.append(2 * n + m + i)
            self.sgn.append(s)
            rows.append(row)
        self.n, self.m, self.p, self.ncol = n, m, p, ncol
        self.rows, self.basis = rows, basis
        art0 = 2 * n + m
        # phase 1
        obj = [F(0)] * (ncol + 1)
        for j in range(art0, ncol):
            obj[j] = F(1)
        for i, bi in enumerate(basis):
            if bi >= art0:
                obj = [o - v for o, v in zip(obj, rows[i])]
        self.obj = obj
        self._run(ncol)
        if self.obj[-1] != 0:      # -(phase-1 minimum)
            # dual of phase 1: pi_i = 1 - redcost(artificial i)  (or from the slack)
            y, z = self._duals(phase1=True)
            self.status = 'inf'
            # sum pi_i * row_i: A'y + C'z = 0 with y>=0, b'y + d'z < 0
            self.y, self.z = y, z
            return
        # drive artificials out
        for i in range(len(self.basis)):
            if self.basis[i] >= art0:
                k = next((j for j in range(art0) if self.rows[i][j] != 0), None)
                if k is not None:
                    self._pivot(i, k)
        obj = [F(0)] * (ncol + 1)
        for j in range(n):
            obj[j], obj[n + j] = c[j], -c[j]
        for i, bi in enumerate(self.basis):
            if bi < 2 * n and obj[bi] != 0:
                f = obj[bi]
                obj = [o - f * v for o, v in zip(obj, self.rows[i])]
        self.obj = obj
        k = self._run(art0)
        x = [F(0)] * (2 * n)
        for i, bi in enumerate(self.basis):
            if bi < 2 * n:
                x[bi] = self.rows[i][-1]
        self.x = [x[j] - x[n + j] for j in range(n)]
        if k is not None:
            r = [F(0)] * (2 * n)
            if k < 2 * n:
                r[k] = F(1)
            for i, bi in enumerate(self.basis):
                if bi < 2 * n:
                    r[bi] -= self.rows[i][k]
            self.ray = [r[j] - r[n + j] for j in range(n)]
            self.status = 'unb'
            return
        self.y, self.z = self._duals(phase1=False)
        self.status = 'opt'
        self.val = dot(c, self.x)

    def _duals(self, phase1):
        n, m, p = self.n, self.m, self.p
        y, z = [], []
        for i in range(m):
            # slack column of row i: redcost = 0 - pi_i*sgn_i ; multiplier y_i = redcost >= 0
            y.append(self.obj[2 * n + i])
        for i in range(p):
            j = 2 * n + m + m + i
            c = F(1) if phase1 else F(0)
            pi = c - self.obj[j]          # dual of (sign-adjusted) row
            z.append(-pi * self.sgn[m + i])
        return y, z

    def _pivot(self, r, c):
        pr = self.rows[r]
        p = pr[c]
        if p != 1:
            pr = [v / p if v else v for v in pr]
            self.rows[r] = pr
        nz = [j for j, v in enumerate(pr) if v]
        for i, row in enumerate(self.rows):
            if i != r and row[c]:
                f = row[c]
                for j in nz:
                    row[j] -= f * pr[j]
        if self.obj[c]:
            f = self.obj[c]
            o = self.obj
            for j in nz:
                o[j] -= f * pr[j]
        self.basis[r] = c

    def _run(self, lim):
        it = 0
        while True:
            it += 1
            # Dantzig for a while, then Bland (termination)
            cand = [j for j in range(lim) if self.obj[j] < 0]
            if not cand:
                return None
            c = cand[0] if it > 60 else min(cand, key=lambda j: self.obj[j])
            best = None
            for i, row in enumerate(self.rows):
                if row[c] > 0:
                    q = row[-1] / row[c]
                    if best is None or q < best[0] or (q == best[0] and self.basis[i] < self.basis[best[1]]):
                        best = (q, i)
            if best is None:
                return c
            self._pivot(best[1], c)

def lp(c, A, b, C=(), d=()):
    return Simplex(c, A, b, C, d)

def feas(A, b, C, d, n):
    """('pt', x) or ('farkas', y, z)"""
    s = lp([F(0)] * n, A, b, C, d)
    if s.status == 'inf':
        return ('farkas', s.y, s.z)
    return ('pt', s.x)

def kkt_solve(H, f, A, b, C, d, act):
    """solve the equality-constrained KKT system; returns x, y(all rows), z or None"""
    n = len(f)
    rows = [A[i] for i in act] + list(C)
    rhs = [b[i] for i in act] + list(d)
    k = len(rows)
    M = [list(H[i]) + [rows[j][i] for j in range(k)] for i in range(n)] + [list(r) + [F(0)] * k for r in rows]
    s = solve(M, [-v for v in f] + list(rhs))
    if s is None:
        return None
    y = [F(0)] * len(A)
    for t, i in enumerate(act):
        y[i] = s[n + t]
    return s[:n], y, s[n + len(act):]

def kkt_ok(H, f, A, b, C, d, x, y):
    return all(v >= 0 for v in y) and all(dot(a, x) <= bi for a, bi in zip(A, b))

def qp(H, f, A, b, C=(), d=()):
    """strictly convex QP: ('opt', x, y, z, val) or ('inf', y, z)."""
    n = len(f)
    C, d = list(C), list(d)
    # keep independent equalities only
    if C:
        keep, cur = [], []
        for i in range(len(C)):
            if rank(cur + [C[i]], n) > len(cur):
                cur.append(C[i])
                keep.append(i)
    else:
        keep = []
    Ck, dk = [C[i] for i in keep], [d[i] for i in keep]
    fe = feas(A, b, C, d, n)
    if fe[0] == 'farkas':
        return ('inf', fe[1], fe[2])
    # primal active set from the feasible point
    x = fe[1]
    W = []
    def indep(S):
        rows = [A[i] for i in S] + Ck
        return rank(rows, n) == len(rows) if rows else True
    for it in range(2000):
        s = kkt_solve(H, f, A, b, Ck, dk, W)
        # equality system uses rhs b: W rows are tight at x, so solution is the EQP optimum
        xs, y, z = s
        p = [a - c for a, c in zip(xs, x)]
        if all(v == 0 for v in p):
            neg = [i for i in W if y[i] < 0]
            if not neg:
                zz = [F(0)] * len(C)
                for t, i in enumerate(keep):
                    zz[i] = z[t]
                val = dot(x, matvec(H, x)) / 2 + dot(f, x)
                return ('opt', x, y, zz, val)
            W.remove(min(neg))
            continue
        best, bi = F(1), None
        for i in range(len(A)):
            if i in W:
                continue
            ap = dot(A[i], p)
            if ap > 0:
                t = (b[i] - dot(A[i], x)) / ap
                if t < best or (t == best and bi is not None and i < bi):
                    best, bi = t, i
        x = [a + best * q for a, q in zip(x, p)]
        if bi is not None:
            if indep(W + [bi]):
                W = sorted(W + [bi])
            else:
                raise RuntimeError('dependent working set')
    raise RuntimeError('qp: no convergence')

def vertices(A, b, C=(), d=(), n=None):
    """all vertices (exact) by enumeration, with their tight rows"""
    n = len(A[0]) if n is None else n
    k = n - rank(list(C), n) if C else n
    out = {}
    for S in itertools.combinations(range(len(A)), k):
        M = list(C) + [A[i] for i in S]
        r = list(d) + [b[i] for i in S]
        if len(M) != n:
            # dependent equalities
            R, piv = rref([list(a) + [v] for a, v in zip(M, r)], n)
            if len(piv) < n or any(all(v == 0 for v in row[:n]) and row[n] != 0 for row in R):
                continue
            x = [R[i][n] for i in range(n)]
        else:
            x = solve(M, r)
            if x is None:
                continue
        if all(dot(a, x) <= bi for a, bi in zip(A, b)):
            out[tuple(x)] = S
    return [list(v) for v in out]

def sqrt_bounds(q, bits=60):
    """rationals lo <= sqrt(q) <= hi"""
    from math import isqrt
    q = F(q)
    s = 1 << bits
    num = q.numerator * q.denominator * s * s
    r = isqrt(num)
    lo = F(r, q.denominator * s)
    hi = F(r + (0 if r * r == num else 1), q.denominator * s)
    return lo, hi
