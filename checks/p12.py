"""P12: critical regions of parametric quadratic programs."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact
from gen import fl
MODELS = []
BOX = F(20)

def program(rng, nu, nx, m, k=2, den=2):
    """random strictly convex program with a feasible parameter"""
    Huu = gen.spd(rng, nu, 1)
    if rng.random() < .5:       # jointly convex
        n = nu + nx
        H = gen.spd(rng, n, 1)
        Huu, Hux, Hxx = [r[:nu] for r in H[:nu]], [r[nu:] for r in H[:nu]], [r[nu:] for r in H[nu:]]
    else:
        Hux = [[gen.dy(rng, -1, 1, 2) for _ in range(nx)] for _ in range(nu)]
        Hxx = gen.spd(rng, nx, 1)
    fu, fx = [gen.dy(rng, -1, 1, 4) for _ in range(nu)], [gen.dy(rng, -1, 1, 4) for _ in range(nx)]
    x, u = [gen.dy(rng, -1, 1, 2) for _ in range(nx)], [gen.dy(rng, -1, 1, 2) for _ in range(nu)]
    Au, Ax, b = [], [], []
    for _ in range(m):
        r = gen.row(rng, nu + nx, k, den)
        if rng.random() < .15:
            r[:nu] = [F(0)] * nu if any(r[nu:]) else r[:nu]
        Au.append(r[:nu])
        Ax.append(r[nu:])
        b.append(exact.dot(r[:nu], u) + exact.dot(r[nu:], x) + F(rng.randint(1, 12), 4))
    if rng.random() < .12:
        i = rng.randrange(m)
        s = rng.choice([F(1), F(2)])
        Au.append([s * v for v in Au[i]])
        Ax.append([s * v for v in Ax[i]])
        b.append(s * b[i] + rng.choice([F(0), F(1)]))
    return dict(nu=nu, nx=nx, Huu=Huu, Hux=Hux, Hxx=Hxx, fu=fu, fx=fx, g=gen.dy(rng, -2, 2, 4), Au=Au, Ax=Ax, b=b)
def mj(m):
    return {k: (v if k in ('nu', 'nx') else fl(v)) for k, v in m.items()}
def menc(m):
    from rat import em, ev, enc
    return dict(nu=m['nu'], nx=m['nx'], Huu=em(m['Huu']), Hux=em(m['Hux']), Hxx=em(m['Hxx']), fu=ev(m['fu']), fx=ev(m['fx']),
                g=enc(m['g']), Au=em(m['Au']), Ax=em(m['Ax']), b=ev(m['b']))
def mfr(m):
    from rat import fr
    return {k: (v if k in ('nu', 'nx') else fr(v)) for k, v in m.items()}
def build(m):
    """the real object"""
    import numpy as np
    from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram as MPQ
    nu, nx, k = m['nu'], m['nx'], len(m['b'])
    M = lambda a, r, c: typed(np.array(a, dtype=float).reshape(r, c))
    v = vec
    return MPQ(dict(uu=M(m['Huu'], nu, nu), ux=M(m['Hux'], nu, nx), xx=M(m['Hxx'], nx, nx)), dict(u=v(m['fu']), x=v(m['fx'])), float(m['g']),
               dict(u=M(m['Au'], k, nu), x=M(m['Ax'], k, nx)), v(m['b']))
def cases(rng, tier):
    N = 1000 if tier == 'quick' else 6000
    out = []
    for i in range(N):
        nu, nx = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
        m = program(rng, nu, nx, rng.randint(1, 8))
        pair = None
        if nu > 1 and rng.random() < .15:        # two almost dependent constraints, possibly of different size
            i = rng.randrange(len(m['b']))
            if any(m['Au'][i]):
                j, e, t = rng.randrange(nu), F(rng.choice([-1, 1]), 2 ** rng.choice([5, 7, 8])), rng.choice([F(1), F(1), F(1, 32)])
                m['Au'].append([t * (v + (e if l == j else 0)) for l, v in enumerate(m['Au'][i])])
                m['Ax'].append([t * v for v in m['Ax'][i]])
                m['b'].append(t * (m['b'][i] + gen.dy(rng, 0, 1, 4)))
                pair = [i, len(m['b']) - 1]
        k = len(m['b'])
        acts = [[]] if pair is None else [[], pair, pair[::-1]]
        for _ in range(5):
            s = rng.sample(range(k), min(k, rng.randint(1, nu + (rng.random() < .2))))
            if rng.random() < .5:
                s.sort()
            acts.append(s)
        pts = []
        for _ in range(5):
            g = None
            if rng.random() < .5:
                g = sorted(rng.sample(range(k), min(k, rng.randint(0, nu))))
            pts.append([fl([gen.dy(rng, -3, 3, 4) for _ in range(nx)]), g])
        out.append(dict(m=mj(m), acts=acts, pts=pts))
    return out

def qpts(n):
    """points that determine a quadratic function"""
    e = exact.eye(n)
    P = {tuple([F(0)] * n)}
    P |= {tuple(r) for r in e} | {tuple(-v for v in r) for r in e}
    P |= {tuple(a + b for a, b in zip(r, s)) for r in e for s in e}
    return sorted(P)
def region_fields(m, got):
    import numpy as np
    from common import rnd, rpoly_of, pol_enc, ev, enc
    nx = m['nx']
    def f(cr):
        if cr is None:
            return None
        at = lambda fn, x: [rnd(v) for v in np.asarray(fn(vec([float(t) for t in x])), dtype=float).reshape(-1)]
        zero, e = [F(0)] * nx, exact.eye(nx)
        R = dict(act=[int(i) for i in cr.active_set], u0=at(cr.u, zero), ue=[at(cr.u, x) for x in e], p0=at(cr.p, zero),
                 pe=[at(cr.p, x) for x in e], pol=rpoly_of(cr.polyhedron))
        V = []
        for x in qpts(nx):
            v = np.asarray(cr.V(vec([float(t) for t in x])), dtype=float)
            if v.size != 1:
                raise ValueError('value is not a number')
            V.append(dict(x=ev(x), v=enc(rnd(v.reshape(-1)[0]))))
        got.append(R)
        return dict(act=[i + 1 for i in R['act']], u0=ev(R['u0']), ue=[ev(v) for v in R['ue']], p0=ev(R['p0']),
                    pe=[ev(v) for v in R['pe']], V=V, pol=pol_enc(R['pol']))
    return f
def certs(m, R, box=BOX):
    """one certificate per constraint of the program over the (clipped) region"""
    from common import row_cert, clip, row_tol
    nx = m['nx']
    reg = clip(R['pol'], box)
    out = []
    for i in range(len(m['b'])):
        if i in R['act']:
            a = [-(R['pe'][j][i] - R['p0'][i]) for j in range(nx)]
            beta = R['p0'][i]
        else:
            g0 = exact.dot(m['Au'][i], R['u0'])
            a = [exact.dot(m['Au'][i], R['ue'][j]) + m['Ax'][i][j] - g0 for j in range(nx)]
            beta = m['b'][i] - g0
        out.append(row_cert(reg, a, beta + (1 + box) * row_tol(F(1, 10 ** 7), a, beta)))
    return out
def safe_certs(m, got):
    try:
        return certs(m, got[0]) if got else []
    except Exception:
        return []
def run(case, rec):
    ws = workspace(case)
    import numpy as np
    import mpqp, ocp
    from common import call, result, fr, ev, enc
    m = mfr(case['m'])
    q = build(case['m'])
    em_ = menc(m)
    for act in case['acts']:
        got = []
        r = result(call(q.explicit_solve_given_active_set, list(act)), region_fields(m, got))
        rec.emit('region', ask='set', m=em_, act=[i + 1 for i in act], box=enc(BOX), r=r, c=safe_certs(m, got))
    for x, guess in case['pts']:
        x = fr(x)
        try:
            s = mpqp.solve(m, x)
        except RuntimeError:
            continue
        _, _, A, b, _ = mpqp.at(m, x)
        mg = ocp.margin(A, b, [], [], m['nu'])
        if abs(mg) < F(1, 5000):
            continue
        if s[0] == 'opt':
            # the activity of a constraint is not within tolerance
            if any(0 < v < F(1, 10 ** 5) for v in s[2]):
                continue
            if any(0 < v - exact.dot(a, s[1]) < F(1, 10 ** 4) for a, v in zip(A, b)):
                continue
        w = dict(k='inf', y=ev(s[1]), z=[]) if s[0] == 'inf' else dict(k='opt', x=ev(s[1]), y=ev(s[2]), z=[])
        got = []
        xa = ws(x)
        res = call(q.explicit_solve_given_point, xa) if guess is None else call(q.explicit_solve_given_point, xa, list(guess))
        r = result(res, region_fields(m, got))
        rec.emit('region', ask='point', m=em_, x=ev(x), w=w, box=enc(BOX), r=r, c=safe_certs(m, got))
        def ans(v):
            if v['min'] is None:
                return None
            from common import rv, rnd
            return dict(u=rv(np.asarray(v['argmin'], dtype=float).reshape(-1)), V=enc(rnd(v['min'])))
        rec.emit('mpsolve', m=em_, x=ev(x), w=w, r=result(call(q.solve, xa), ans))
