"""P06: intersection, Cartesian product, convex hull."""
from fractions import Fraction as F
import gen, exact, itertools
from gen import fl, pj
import p04
MODELS = []
BOX = 64

def cases(rng, tier):
    N = 4400 if tier == 'quick' else 6000
    out = []
    for i in range(N):
        u = rng.random()
        if u < .4:
            n = rng.choice([1, 2, 3])
            st = gen.units(rng, n, .3, .2, .1, F(64)) if rng.random() < .3 else ([F(1)] * n, [F(0)] * n)
            P, Q = [gen.moved(p04.some_poly(rng, n), *st) for _ in range(2)]
            if rng.random() < .25:           # rows of one are almost rows of the other
                P, Q = gen.moved(P, [F(16)] * n, [F(rng.randint(-64, 64)) for _ in range(n)]), dict(Q)
                for a, b in (('A', 'b'), ('C', 'd')):
                    for r, v in zip(P[a], P[b]):
                        if rng.random() < .6:
                            Q[a] = Q[a] + [r]
                            Q[b] = Q[b] + [v * (1 + F(rng.choice([-2, -1, 0, 1, 2]), 1 << 18)) if a == 'A' else v]
            out.append(dict(op='intersection', p=pj(P), q=pj(Q)))
        elif u < .65:
            n, m = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)])
            out.append(dict(op='product', p=pj(p04.some_poly(rng, n)), q=pj(p04.some_poly(rng, m))))
        else:
            n = rng.choice([2, 2, 3])
            while True:
                k = rng.randint(n + 1, 8 if n == 2 else 7)
                pts = [[gen.dy(rng, -3, 3, rng.choice([1, 2])) for _ in range(n)] for _ in range(k)]
                if exact.rank([[a - b for a, b in zip(x, pts[0])] for x in pts[1:]], n) == n:
                    break
            if rng.random() < .4:        # interior or repeated points
                pts.append([sum(c) / 2 for c in zip(pts[0], pts[1])])
            if rng.random() < .2:
                pts.append(list(pts[0]))
            rng.shuffle(pts)
            if rng.random() < .3:
                s, t = gen.units(rng, n, .5, .3, .2, F(64))
                pts = [[a * b + c for a, b, c in zip(x, s, t)] for x in pts]
            out.append(dict(op='hull', pts=fl(pts)))
    return out

def hull_rows(pts, n):
    """facets of the convex hull (exact), scaled as in the specification (UnitMax)"""
    pts = [list(x) for x in sorted(set(map(tuple, pts)))]
    rows = set()
    for S in itertools.combinations(pts, n):
        R, piv = exact.rref([list(x) + [F(-1)] for x in S], n + 1)
        if len(piv) < n:
            continue
        free = next(j for j in range(n + 1) if j not in piv)
        h = [F(0)] * (n + 1)
        h[free] = F(1)
        for k, j in enumerate(piv):
            h[j] = -R[k][free]
        a, be = h[:n], h[n]
        m = max(abs(v) for v in a)
        if m == 0:
            continue
        s = {(lambda v: (v > 0) - (v < 0))(exact.dot(a, x) - be) for x in pts}
        if 1 not in s:
            rows.add((tuple(v / m for v in a), be / m))
        elif -1 not in s:
            rows.add((tuple(-v / m for v in a), -be / m))
    rows = sorted(rows)
    return dict(n=n, A=[list(r[0]) for r in rows], b=[r[1] for r in rows], C=[], d=[])

def run(case, rec):
    import numpy as np
    from common import pol_exact, pol_enc, make, call, result, same_set, poly_of, rpoly_of, finite, enc, em, fr, vec, NonFinite
    from pympc.geometry.polyhedron import Polyhedron
    op = case['op']
    kw = dict(op=op, box=enc(BOX))
    if op == 'hull':
        pts = fr(case['pts'])
        n = len(pts[0])
        H = hull_rows(pts, n)
        res = call(Polyhedron.from_convex_hull, [vec(x) for x in case['pts']])
        meant = H
        kw.update(pts=em(pts), n=n, h=pol_enc(H))
        get = rpoly_of
    else:
        P, Q = pol_exact(case['p']), pol_exact(case['q'])
        x, y = make(case['p']), make(case['q'])
        kw.update(p=pol_enc(P), q=pol_enc(Q))
        if op == 'intersection':
            res = call(x.intersection, y)
            meant = dict(n=P['n'], A=P['A'] + Q['A'], b=P['b'] + Q['b'], C=P['C'] + Q['C'], d=P['d'] + Q['d'])
        else:
            res = call(x.cartesian_product, y)
            zl, zr = [F(0)] * P['n'], [F(0)] * Q['n']
            meant = dict(n=P['n'] + Q['n'], A=[r + zr for r in P['A']] + [zl + r for r in Q['A']], b=P['b'] + Q['b'],
                         C=[r + zr for r in P['C']] + [zl + r for r in Q['C']], d=P['d'] + Q['d'])
        def get(p):
            if not finite(p):
                raise NonFinite()
            return poly_of(p)
    got = [None]
    def fields(p):
        got[0] = get(p)
        return dict(p=pol_enc(got[0]))
    r = result(res, fields)
    kw['w'] = same_set(got[0], meant, BOX) if got[0] is not None else {}
    rec.emit('setop', r=r, **kw)
    # membership in the result of points of / near the operands
