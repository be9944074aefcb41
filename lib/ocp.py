"""Optimal-control problems: exact condensing and certificates for the program over (u(0..N-1), x(1..N)) of spec/Control.tla."""
from fractions import Fraction as F
import exact
from exact import dot, matvec, tvec, matmul, transpose

def horizon(o):
    return len(o['modes'])
def states(o, x0):
    """x(t) = G[t] u + g[t] over the stacked inputs u"""
    S0 = o['sys'][0]
    nx, nu, N = S0['nx'], S0['nu'], horizon(o)
    G, g = [[[F(0)] * (N * nu) for _ in range(nx)]], [list(x0)]
    for t, m in enumerate(o['modes']):
        S = o['sys'][m - 1]
        M = matmul(S['A'], G[-1])
        for i in range(nx):
            for j in range(nu):
                M[i][t * nu + j] += S['B'][i][j]
        G.append(M)
        g.append([a + c for a, c in zip(matvec(S['A'], g[-1]), S['c'])])
    return G, g
def stages(o):
    """(t, rows, rhs) of the inequalities, and of the equalities, in the order of the specification"""
    N = horizon(o)
    ds = [o['doms'][m - 1] for m in o['modes']] + [o['XN']]
    return [(t, ds[t]['A'], ds[t]['b']) for t in range(N + 1)], [(t, ds[t]['C'], ds[t]['d']) for t in range(N + 1)]
def condensed(o, x0):
    """H, f, off, A, b, C, d of the program in the inputs"""
    S0 = o['sys'][0]
    nx, nu, N = S0['nx'], S0['nu'], horizon(o)
    n = N * nu
    G, g = states(o, x0)
    H = [[F(0)] * n for _ in range(n)]
    f = [F(0)] * n
    off = F(0)
    for t in range(N + 1):
        W = o['P'] if t == N else o['Q']
        WG = matmul(W, G[t])
        HH = matmul(transpose(G[t], n), WG)
        for i in range(n):
            for j in range(n):
                H[i][j] += HH[i][j]
        Wg = matvec(W, g[t])
        f = [a + b for a, b in zip(f, tvec(G[t], Wg, n))]
        off += dot(g[t], Wg) / 2
    for t in range(N):
        for i in range(nu):
            for j in range(nu):
                H[t * nu + i][t * nu + j] += o['R'][i][j]
    def elim(st):
        M, v = [], []
        for t, rows, rhs in st:
            for r, h in zip(rows, rhs):
                a = tvec(G[t], r[:nx], n)
                for j, c in enumerate(r[nx:]):
                    a[t * nu + j] += c
                M.append(a)
                v.append(h - dot(r[:nx], g[t]))
        return M, v
    iq, eq = stages(o)
    A, b = elim(iq)
    C, d = elim(eq)
    return H, f, off, A, b, C, d
def lift(o, x0, y, z, u=None):
    """multipliers of the dynamics from those of the condensed program; returns (x-part of the unknowns, z of the full program)"""
    S0 = o['sys'][0]
    nx, nu, N = S0['nx'], S0['nu'], horizon(o)
    G, g = states(o, x0)
    xs = [[a + b for a, b in zip(matvec(G[t], u), g[t])] for t in range(N + 1)] if u is not None else None
    iq, eq = stages(o)
    def parts(st, m):
        out, k = [], 0
        for t, rows, _ in st:
            out.append(tvec([r[:nx] for r in rows], m[k:k + len(rows)], nx) if rows else [F(0)] * nx)
            k += len(rows)
        return out
    py, pz = parts(iq, y), parts(eq, z)
    grad = lambda t: matvec(o['P'] if t == N else o['Q'], xs[t]) if xs is not None else [F(0)] * nx
    lam = [None] * N
    lam[N - 1] = [-(a + b + c) for a, b, c in zip(grad(N), py[N], pz[N])]
    for t in range(N - 1, 0, -1):
        S = o['sys'][o['modes'][t] - 1]
        lam[t - 1] = [a - b - c - d for a, b, c, d in zip(tvec(S['A'], lam[t], nx), grad(t), py[t], pz[t])]
    return xs, list(z) + [v for l in lam for v in l]
def margin(A, b, C, d, n):
    """largest s <= 1 with A u + s <= b, C u = d (None: the equalities alone are contradictory)"""
    if not A:
        return F(1)
    s = exact.lp([F(0)] * n + [F(-1)], [r + [F(1)] for r in A] + [[F(0)] * n + [F(1)]], list(b) + [F(1)],
                 [r + [F(0)] for r in C], d)
    return s.x[-1] if s.status == 'opt' else None
def solve(o, x0):
    """dict(w = certificate, margin, u, x, V)"""
    from rat import ev
    H, f, off, A, b, C, d = condensed(o, x0)
    n = len(f)
    m = margin(A, b, C, d, n)
    s = exact.qp(H, f, A, b, C, d)
    if s[0] == 'inf':
        _, z = lift(o, x0, s[1], s[2])
        return dict(w=dict(k='inf', y=ev(s[1]), z=ev(z)), margin=m, u=None)
    u = s[1]
    xs, z = lift(o, x0, s[2], s[3], u)
    v = u + [c for x in xs[1:] for c in x]
    nu = o['sys'][0]['nu']
    return dict(w=dict(k='opt', x=ev(v), y=ev(s[2]), z=ev(z)), margin=m, u=[u[k:k + nu] for k in range(0, n, nu)], x=xs,
                V=s[4] + off, y=s[2])
def enc_o(o):
    from rat import em, ev
    import dyn
    from common import pol_enc
    return dict(sys=[dyn.senc(S) for S in o['sys']], doms=[pol_enc(D) for D in o['doms']], modes=o['modes'],
                Q=em(o['Q']), R=em(o['R']), P=em(o['P']), XN=pol_enc(o['XN']))
def exact_o(c, modes):
    from rat import fr
    import dyn
    from common import pol_exact
    return dict(sys=[dyn.sfr(S) for S in c['sys']], doms=[pol_exact(D) for D in c['doms']], modes=modes,
                Q=fr(c['Q']), R=fr(c['R']), P=fr(c['P']), XN=pol_exact(c['XN']))
def joint(o):
    """the constraints over (x0, u) (same order of rows)"""
    S0 = o['sys'][0]
    nx = S0['nx']
    n = nx + horizon(o) * S0['nu']
    _, _, _, A0, b0, C0, d0 = condensed(o, [F(0)] * nx)
    def cols(k):
        _, _, _, _, b, _, d = condensed(o, [F(int(i == k)) for i in range(nx)])
        return [v0 - v for v0, v in zip(b0, b)], [v0 - v for v0, v in zip(d0, d)]
    cs = [cols(k) for k in range(nx)]
    A = [[c[0][i] for c in cs] + A0[i] for i in range(len(A0))]
    C = [[c[1][i] for c in cs] + C0[i] for i in range(len(C0))]
    return dict(n=n, A=A, b=b0, C=C, d=d0)
def ans(v):
    """encoded fields of (u list, V)"""
    import numpy as np
    from rat import rv, enc, rnd
    u, V = v
    if u is None and V is None:
        return None
    if u is None or V is None:
        raise ValueError('partly absent')
    us = []
    for x in u:
        a = np.asarray(x, dtype=float)
        if a.ndim != 1:
            raise ValueError('input is not a vector')
        us.append(rv(a))
    return dict(u=us, V=enc(rnd(V)))
def fb(v):
    import numpy as np
    from rat import rv
    if v is None:
        return None
    a = np.asarray(v, dtype=float)
    if a.ndim != 1:
        raise ValueError('input is not a vector')
    return dict(u=rv(a))
