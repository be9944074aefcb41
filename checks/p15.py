"""P15: piecewise-affine systems: mode lookup, simulation, well-posedness."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl, pj
MODELS = []

def grid_domains(rng, n, cut=None):
    """adjacent boxes (shared facets), some with oblique cuts"""
    ax = rng.randrange(n)
    pts = sorted(rng.sample([F(k, 2) for k in range(-6, 7)], rng.choice([2, 3, 4, 5, 6])))
    doms = []
    w = [F(rng.randint(2, 8), 2) for _ in range(n)]
    for a, b in zip(pts, pts[1:]):
        lo, hi = [-v for v in w], list(w)
        lo[ax], hi[ax] = a, b
        A, bb = gen.box(n, lo, hi)
        doms.append(dict(n=n, A=A, b=bb, C=[], d=[]))
    return doms
def split(rng, P, k):
    """split a polyhedron along hyperplanes"""
    doms = [P]
    for _ in range(k):
        i = rng.randrange(len(doms))
        D = doms.pop(i)
        r = gen.row(rng, D['n'], 2, 1)
        c = F(rng.randint(-8, 8), 4)
        gap = rng.choice([F(0), F(0), F(0), F(1, 4), F(-1, 8)])      # gap or overlap between the halves
        doms.append(dict(n=D['n'], A=D['A'] + [r], b=D['b'] + [c], C=[], d=[]))
        doms.append(dict(n=D['n'], A=D['A'] + [[-v for v in r]], b=D['b'] + [-c - gap], C=[], d=[]))
    return doms

def cases(rng, tier):
    N = 2100 if tier == 'quick' else 6000
    out = []
    for i in range(N):
        nx, nu = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2])
        n = nx + nu
        kind = rng.choice(['grid', 'split', 'split', 'random', 'unbounded', 'eq'])
        if kind == 'grid':
            doms = grid_domains(rng, n)
        elif kind in ('split', 'eq'):
            A, b = gen.box(n, [F(-rng.randint(1, 5)) for _ in range(n)], [F(rng.randint(1, 5)) for _ in range(n)])
            doms = split(rng, dict(n=n, A=A, b=b, C=[], d=[]), rng.choice([1, 2, 3]))
            if kind == 'eq':
                D = rng.choice(doms)
                r = gen.row(rng, n, 1, 1)
                D['C'], D['d'] = [r], [F(rng.randint(-2, 2), 2)]
        elif kind == 'random':
            doms = [gen.poly(rng, n, 2 * n + rng.randint(0, 2), 'bounded') for _ in range(rng.choice([1, 2, 3]))]
        else:
            r = gen.row(rng, n, 2, 1)
            c = F(rng.randint(-4, 4), 4)
            g = rng.choice([F(0), F(0), F(1, 4), F(-1, 8)])
            doms = [dict(n=n, A=[r], b=[c], C=[], d=[]), dict(n=n, A=[[-v for v in r]], b=[-c - g], C=[], d=[])]
            if rng.random() < .4:
                doms = split(rng, doms[0], 1) + doms[1:]
        if kind == 'grid' and len(doms) > 1 and rng.random() < .4:      # exactly two of many domains overlap
            i = rng.randrange(len(doms))
            doms.append(dict(doms[i], b=[v - F(1, 8) for v in doms[i]['b']]))
        rng.shuffle(doms)
        sys = [dyn.system(rng, nx, nu, True, k=1, stable=rng.random() < .7) for _ in doms]
        T = rng.choice([0, 1, 2, 3, 4, 5])
        us = [[gen.dy(rng, -2, 2, 8) for _ in range(nu)] for _ in range(T)]
        pts = []
        for _ in range(6):
            pts.append([gen.dy(rng, -5, 5, 8) for _ in range(n)])
        for D in doms:
            s = exact.feas(D['A'], D['b'], D['C'], D['d'], n)
            if s[0] == 'pt':
                pts.append(s[1])            # usually a vertex: on the boundary of several domains
                if D['A']:
                    a = rng.choice(D['A'])
                    e = rng.choice([F(1, 1000), F(1, 10 ** 5), F(1, 4), F(1)])
                    pts.append([u + e * v for u, v in zip(s[1], a)])
        starts = []
        if T:
            for z in rng.sample(pts, min(3, len(pts))):
                starts.append((z[:nx], [z[nx:]] + us[1:]))
        else:
            starts.append((pts[0][:nx], []))
        out.append(dict(kind=kind, sys=[dyn.sj(S) for S in sys], doms=[pj(D) for D in doms], pts=fl(pts),
                        starts=[[fl(x), fl(u)] for x, u in starts]))
    return out

def run(case, rec):
    ws = workspace(case)
    import numpy as np
    from common import call, result, pol_exact, pol_enc, make, ev, fr, bool_res
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem
    sys, doms = case['sys'], [pol_exact(D) for D in case['doms']]
    nx = sys[0]['nx']
    n = nx + sys[0]['nu']
    try:
        P = PieceWiseAffineSystem([dyn.make_sys(S, False) for S in sys], [make(D) for D in case['doms']])
    except Exception:
        raise
    es, ed = [dyn.senc(dyn.sfr(S)) for S in sys], [pol_enc(D) for D in doms]
    def mode(v):
        if v is None:
            return None
        if isinstance(v, (bool, np.bool_)) or not isinstance(v, (int, np.integer)):
            raise ValueError('mode')
        return dict(v=int(v) + 1)
    for z in case['pts']:
        x, u = ws(z[:nx], 'x'), ws(z[nx:], 'u')
        rec.emit('mode', doms=ed, x=ev(z[:nx]), u=ev(z[nx:]), r=result(call(P.get_mode, x, u), mode))
    for x, u in case['starts']:
        res = call(P.simulate, ws(x, 'x'), [vec(v) for v in u])
        rec.emit('pwasim', sys=es, doms=ed, x0=ev(x), u=[ev(v) for v in u],
                 r=result(res, lambda v: dict(x=dyn.traj(v[0]), modes=[int(m) + 1 for m in v[1]])))
    if case['kind'] == 'eq':
        return
    w = []
    ok = True
    for i in range(len(doms)):
        for j in range(i + 1, len(doms)):
            A, b = doms[i]['A'] + doms[j]['A'], doms[i]['b'] + doms[j]['b']
            rows = [(r, v) for r, v in zip(A, b) if any(r)]
            zr = [F(0)] * n
            s = exact.lp(zr + [F(-1)], [r + [F(1)] for r, _ in rows] + [zr + [F(1)]], [v for _, v in rows] + [F(1)])
            if any(not any(r) and v < 0 for r, v in zip(A, b)):
                ok = False
                continue
            if s.status == 'opt' and -s.val > F(1, 2000):
                w.append(dict(i=i + 1, j=j + 1, k='pt', x=ev(s.x[:n])))
            elif s.status == 'opt' and -s.val <= 0:
                # dual: y >= 0 with A'y = 0, b'y <= 0
                k, y = 0, []
                for r in A:
                    if any(r):
                        y.append(s.y[k])
                        k += 1
                    else:
                        y.append(F(0))
                w.append(dict(i=i + 1, j=j + 1, k='none', y=ev(y)))
            else:
                ok = False
    if any(x['k'] == 'pt' for x in w) or ok:
        rec.emit('wellposed', doms=ed, w=w, r=result(call(P.is_well_posed), bool_res))
