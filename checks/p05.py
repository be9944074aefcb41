"""P05: Chebyshev ball and vertices."""
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = []

def cases(rng, tier):
    N = 6250 if tier == 'quick' else 8000
    out = []
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        neq = rng.choice([0, 0, 0, 1, 1, 2])
        neq = min(neq, n - 1)
        kind = rng.choice(['bounded'] * 5 + ['cone', 'cone', 'empty', 'any'])
        P = gen.poly(rng, n, rng.randint(n + 1, 2 * n + 3), kind, neq)
        if rng.random() < .12 and n > 1:      # slab: unbounded with a largest ball
            r = gen.row(rng, n, 2)
            P = dict(n=n, A=[r, [-x for x in r]], b=[F(3), F(1)], C=P['C'], d=P['d'])
        if rng.random() < .3 and kind == 'bounded':        # the same facet twice with different norms; a facet with large norm
            i = rng.randrange(len(P['A']))
            s = rng.choice([F(8), F(1, 8), F(1, 2048), F(512)])
            P['A'][i] = [s * x for x in P['A'][i]]
            P['b'][i] = s * P['b'][i]
        P = gen.place(rng, P)
        if kind == 'bounded' and rng.random() < .12:
            P = chopped(rng, P)
        out.append(dict(p=pj(P)))
    return out

def chopped(rng, P):
    """a corner is cut off: vertices close to each other"""
    n = P['n']
    if P['C'] or n < 2:
        return P
    s = exact.lp(gen.row(rng, n, 3, 1), P['A'], P['b'])
    if s.status != 'opt':
        return P
    T = [r for r, v in zip(P['A'], P['b']) if exact.dot(r, s.x) == v]
    g = [sum(c) for c in zip(*T)]
    if len(T) != n:
        return P
    return dict(P, A=P['A'] + [g], b=P['b'] + [F(float(exact.dot(g, s.x) - sum(map(abs, g)) / 2 ** rng.choice([7, 10, 12])))])

def rel_norm2(P, a):
    if not P['C']:
        return exact.dot(a, a)
    Ca = exact.matvec(P['C'], a)
    M = exact.matmul(P['C'], exact.transpose(P['C'], P['n']))
    return exact.dot(a, a) - exact.dot(Ca, exact.solve(M, Ca))

def ball_wit(P):
    from rat import ev, enc
    nb = [exact.sqrt_bounds(rel_norm2(P, a), 40) for a in P['A']]
    nrm = [[enc(lo), enc(hi)] for lo, hi in nb]
    n = P['n']
    fe = exact.feas(P['A'], P['b'], P['C'], P['d'], n)
    if fe[0] == 'farkas':
        return dict(k='farkas', y=ev(fe[1]), z=ev(fe[2]), nrm=nrm)
    s = exact.lp([F(0)] * n + [F(-1)], [r + [lo] for r, (lo, hi) in zip(P['A'], nb)], P['b'],
                 [r + [F(0)] for r in P['C']], P['d'])
    if s.status == 'opt':
        return dict(k='ball', y=ev(s.y), z=ev(s.z), x=ev(fe[1]), nrm=nrm, rad=-s.val)
    return dict(k='cone', x=ev(fe[1]), ray=ev(s.ray[:n]), nrm=nrm)

def run(case, rec):
    import numpy as np
    from common import pol_exact, pol_enc, make, call, result, bounded_wit, deepest, enc, rnd, rv, ev
    P = pol_exact(case['p'])
    w = ball_wit(P)
    wb = bounded_wit(P)
    rad = w.pop('rad', None)
    num = lambda v: None if v is None else dict(v=enc(rnd(v)))
    vecf = lambda v: None if v is None else dict(v=rv(np.asarray(v, dtype=float).reshape(-1)))
    p = make(case['p'])
    if not (w['k'] == 'ball' and rad < F(1, 10 ** 4)):          # not (almost) flat
        # both orders of asking
        if case['npseed'] % 2:
            r = result(call(lambda: p.radius), num)
            c = result(call(lambda: p.center), vecf)
        else:
            c = result(call(lambda: p.center), vecf)
            r = result(call(lambda: p.radius), num)
        rec.emit('ball', p=pol_enc(P), w=w, bounded=wb['k'] != 'ray', radius=r, center=c)
    if wb['k'] == 'bounded':
        x, m = deepest(P)
        if x is None or m < F(1, 1000):
            return
        wb['pt'] = ev(x)
    q = make(case['p'])
    lst = lambda v: None if v is None else dict(v=[rv(np.asarray(x, dtype=float).reshape(-1)) for x in v])
    rec.emit('vertices', p=pol_enc(P), w=wb, margin=enc(F(1, 1000)), r=result(call(lambda: q.vertices), lst))
