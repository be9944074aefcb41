"""P07: orthogonal projection."""
from fractions import Fraction as F
import gen, exact, itertools
from gen import fl, pj
import p04, p06
from math import gcd
MODELS = [dict(module='Expansion.tla', cfg='MC_Expansion.cfg', args=('-workers', '4')),
          dict(module='Expansion.tla', cfg='MC_Expansion_bad_line.cfg', expect='Exact'),
          dict(module='Expansion.tla', cfg='MC_Expansion_bad_first.cfg', expect='Exact')]
BOX = 64

def model_cases(rng, tier, ctx):
    """the shadows of Expansion.tla (hulls of sets of points of a grid), lifted to polytopes of one dimension more"""
    from hist import gen_histories
    H = gen_histories(ctx, 0, 'Gen_Expansion.cfg', simulate=False, module='Expansion.tla')
    H.sort(key=str)
    if tier == 'quick':
        H = rng.sample(H, 150)
    out = []
    for V in H:
        pts = [[F(v) for v in p] + [F(rng.randint(-4, 4), 2)] for p in V]
        pts += [p[:2] + [p[2] + F(rng.randint(1, 4), 2)] for p in pts if rng.random() < .4] or [pts[0][:2] + [pts[0][2] + 1]]
        order = rng.sample(range(3), 3)
        P = p06.hull_rows([[p[k] for k in order] for p in pts], 3)
        A, b = gen.shuffle_rows(rng, P['A'], P['b'])
        if any(v.denominator & (v.denominator - 1) for r in A for v in r) or any(v.denominator & (v.denominator - 1) for v in b):
            m = [1] * len(A)        # clear the denominators
            for i, r in enumerate(A):
                for v in r + [b[i]]:
                    m[i] = m[i] * v.denominator // gcd(m[i], v.denominator)
            A, b = [[k * v for v in r] for k, r in zip(m, A)], [k * v for k, v in zip(m, b)]
        dims = [order.index(0), order.index(1)]
        if rng.random() < .5:
            dims.reverse()
        out.append(dict(p=pj(dict(n=3, A=A, b=b, C=[], d=[])), dims=dims))
    return out
def round_cases(rng, N):
    """shadows with sides that are almost parallel"""
    out = []
    while len(out) < N:
        V = [[gen.dy(rng, -6, 6, 2) for _ in range(2)] for _ in range(rng.randint(3, 5))]
        if exact.rank([[a - b for a, b in zip(x, V[0])] for x in V[1:]], 2) < 2:
            continue
        H = p06.hull_rows(V, 2)
        c = [sum(x) / len(V) for x in zip(*V)]
        pts = list(V)
        for a, be in zip(H['A'], H['b']):
            E = sorted(x for x in V if exact.dot(a, x) == be)
            if rng.random() < .6:
                k = F(rng.randint(1, 3), 4)
                d = [u - v for u, v in zip(E[-1], E[0])]
                nrm = [d[1], -d[0]]
                if exact.dot(a, nrm) < 0:
                    nrm = [-v for v in nrm]
                e = F(1, 1 << rng.randint(10, 13))
                pts.append([u + k * v + e * w for u, v, w in zip(E[0], d, nrm)])
        t = [F(rng.randint(-20, 20)) for _ in range(2)] if rng.random() < .4 else [F(0)] * 2
        pts = [[u + v for u, v in zip(x, t)] + [F(rng.randint(-4, 4), 2)] for x in pts]
        pts.append(pts[0][:2] + [pts[0][2] + F(rng.randint(1, 4), 2)])
        order = rng.sample(range(3), 3)
        P = p06.hull_rows([[x[k] for k in order] for x in pts], 3)
        A, b = gen.shuffle_rows(rng, P['A'], P['b'])
        for i, r in enumerate(A):
            m = 1
            for v in r + [b[i]]:
                m = m * v.denominator // gcd(m, v.denominator)
            q = F(m)
            while max(abs(v) for v in r) * q > 4:
                q /= 2
            A[i], b[i] = [q * v for v in r], q * b[i]
        if any(F(float(v)) != v for r in A for v in r) or any(F(float(v)) != v for v in b):
            continue
        dims = [order.index(0), order.index(1)]
        if rng.random() < .5:
            dims.reverse()
        out.append(dict(p=pj(dict(n=3, A=A, b=b, C=[], d=[])), dims=dims))
    return out
def cases(rng, tier, ctx):
    N = 1800 if tier == 'quick' else 2500
    out = []
    for i in range(N):
        n = rng.choice([2, 2, 3, 3, 3, 4])
        kind = rng.choice(['bounded'] * 9 + ['empty', 'cone'])
        m = {2: 6, 3: 8, 4: 9}[n]
        P = gen.poly(rng, n, rng.randint(2 * n, m), kind, 1 if rng.random() < .05 else 0, k=2)
        if rng.random() < .35 and kind == 'bounded':       # simplex-like or rotated polytopes instead of boxes
            while True:
                A = [gen.row(rng, n, 2) for _ in range(n + 1 + rng.randint(0, 3))]
                b = [F(rng.randint(1, 12), 4) for _ in A]
                if all(exact.lp([F(s * int(j == k)) for j in range(n)], A, b).status == 'opt' for k in range(n) for s in (1, -1)):
                    break
            P = dict(n=n, A=A, b=b, C=P['C'], d=P['d'])
        k = rng.choice([1, 2, 2, 2, 3]) if n > 2 else rng.choice([1, 1, 2])
        k = min(k, n)
        dims = rng.sample(range(n), k)
        if rng.random() < .3:
            P = gen.place(rng, P, .5, .3, .2, F(32))
        if rng.random() < .2 and kind == 'bounded' and n < 4 and not P['C']:      # facets that are almost parallel
            for _ in range(rng.randint(1, 2)):
                P = gen.bend(rng, P) or P
        out.append(dict(p=pj(P), dims=dims))
    return out + round_cases(rng, 200 if tier == 'quick' else 1500) + model_cases(rng, tier, ctx)

def span(L, H):
    """vertices of the shadow that are not listed, as combinations of the listed points (almost flat corners may be missing)"""
    from rat import ev
    out = []
    n = H['n']
    for v in exact.vertices(H['A'], H['b'], n=n):
        t = F(1, 2 * 10 ** 6) * (1 + max(map(abs, v)))
        if any(max(abs(a - b) for a, b in zip(u, v)) <= t for u in L) or any(len(u) != n for u in L):
            continue
        k = len(L)
        A = [[u[j] for u in L] for j in range(n)]
        A += [[-x for x in r] for r in A] + [[-F(int(i == j)) for j in range(k)] for i in range(k)]
        s = exact.lp([F(0)] * k, A, [x + t for x in v] + [-x + t for x in v] + [F(0)] * k, [[F(1)] * k], [F(1)])
        if s.status == 'opt':
            out.append(dict(v=ev(v), l=ev(s.x)))
    return out
def run(case, rec):
    import numpy as np
    from rat import rnd
    from common import pol_exact, pol_enc, make, call, result, same_set, rpoly_of, enc, em, ev, rv, bounded_wit, deepest
    P = pol_exact(case['p'])
    dims = case['dims']
    wb = bounded_wit(P)
    kw = dict(p=pol_enc(P), dims=[d + 1 for d in dims], box=enc(BOX))
    full = wb['k'] == 'bounded' and not P['C']
    H = None
    if full:
        x, m = deepest(P)
        if x is None or m < F(1, 100):
            return
        wb['pt'] = ev(x)
        V = exact.vertices(P['A'], P['b'], n=P['n'])
        pts = [[v[d] for d in dims] for v in V]
        H = p06.hull_rows(pts, len(dims))
        kw['h'] = pol_enc(H)
    kw['wb'] = wb
    p = make(case['p'])
    res = call(p.project_to, list(dims))
    got = [None, None]
    def fields(q):
        got[0] = rpoly_of(q)
        v = q.vertices
        got[1] = [[rnd(y) for y in np.asarray(x, dtype=float).reshape(-1)] for x in v]
        return dict(p=pol_enc(got[0]), v=[rv(np.asarray(x, dtype=float).reshape(-1)) for x in v])
    r = result(res, fields)
    kw['w'] = same_set(got[0], H, BOX) if got[0] is not None and H is not None and got[0]['n'] == H['n'] else {}
    kw['sp'] = span(got[1], H) if r['k'] == 'ok' and H is not None else []
    rec.emit('proj', r=r, **kw)
