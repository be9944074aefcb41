"""P17: symbolic models and constraints."""
from record import arr, vec, typed
from fractions import Fraction as F
import random
import gen, exact, dyn, sym
from gen import fl
from rat import dec
MODELS = []

def cases(rng, tier):
    N = 1200 if tier == 'quick' else 5000
    out = []
    for i in range(N):
        out.append(dict(k='sys', seed=rng.randrange(10 ** 9), nx=rng.choice([1, 2, 2, 3, 4]), nu=rng.choice([1, 1, 2, 3]),
                        linear=rng.random() < .5, cont=rng.random() < .4, method=rng.choice(['zero_order_hold', 'explicit_euler'])))
        if i % 2 == 0:
            out.append(dict(k='pol', seed=rng.randrange(10 ** 9), n=rng.choice([1, 2, 2, 3]), steps=rng.randint(1, 4)))
    return out

NAMES = ['x1', 'x2', 'u1', 'a', 'z', 'q', 'b10', 'b2', 'theta', 'v_0', 'y', 'w', 'k', 'X', 'Y']
def run(case, rec):
    rng = random.Random(case['seed'])
    if case['k'] == 'pol':
        import hist
        rec.emit('begin')
        w = hist.World(rec, case['seed'], case['n'], fine=rng.random() < .5)
        names = rng.sample(NAMES, 10)
        import sympy as sp
        w.symbols = lambda n: sp.Matrix([sp.Symbol(s) for s in names[:n]])
        w.sym_only = True
        w.step(dict(op='new', s=1, a=0, b=0))
        if 1 not in w.real:
            return
        w.q_contains(1, many=True)
        w.describe(1)
        for _ in range(case['steps']):
            w.step(dict(op=rng.choice(['symineq', 'symineq', 'symeq']), s=1, a=0, b=0))
            w.q_contains(1, many=True)
        w.describe(1)
        return
    import numpy as np, sympy as sp
    import p16
    from common import call, result, enc, ev, rv
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu, linear, cont = case['nx'], case['nu'], case['linear'], case['cont']
    n = nx + nu
    names = rng.sample(NAMES, n)
    xs = sp.Matrix([sp.Symbol(s) for s in names[:nx]])
    us = sp.Matrix([sp.Symbol(s) for s in names[nx:]])
    allv = list(xs) + list(us)
    off = [F(0)] * nx
    fine = rng.random() < .3
    tick = lambda: F(rng.randint(-99, 99), 1 << 22) if fine else F(0)       # numbers with many digits
    if not linear or rng.random() < .4:
        if linear:
            off[rng.randrange(nx)] = rng.choice([F(1), F(-1, 2), F(1, 1024), F(3), F(1, 1 << 20), -F(1, 1 << 22)])
            if nx > 1 and rng.random() < .5:        # several offsets, in particular ones that cancel
                i, j = rng.sample(range(nx), 2)
                off[i] = rng.choice([F(2), F(-1, 2), F(1, 1024)])
                off[j] = -off[i] * rng.choice([1, 1, 2])
        elif rng.random() < .7:
            off = [gen.dy(rng, -2, 2, 4) + tick() for _ in range(nx)]
    trees = []
    for i in range(nx):
        if rng.random() < .5:
            t = sym.tree(rng, n, 3)
            t = sym.with_const(t, off[i] - sym.affine(t, n)[1])
        else:
            t = sym.of_row(rng, [gen.dy(rng, -2, 2, 2) + tick() if rng.random() < .7 else F(0) for _ in range(n)], off[i], n)
        trees.append(t)
    e = sp.Matrix([sym.expr(t, allv) for t in trees])
    C = LinearSystem if linear else AffineSystem
    kw = dict(cont=cont, linear=linear, nx=nx, nu=nu, x=[sym.js(t) for t in trees], q=[], h=enc(0), method='', terms=0)
    aff = [sym.affine(t, n) for t in trees]
    S = dict(nx=nx, nu=nu, A=[a[0][:nx] for a in aff], B=[a[0][nx:] for a in aff], c=[a[1] for a in aff])
    if cont:
        h = rng.choice([F(1, 64), F(1, 8), F(1, 4), F(1, 2)])
        while h * max(sum(abs(v) for v in a[0]) + abs(a[1]) for a in aff) > 8:
            h /= 2
        m = case['method']
        kw.update(h=enc(h), method=m, terms=p16.terms(S, h) if m == 'zero_order_hold' else 0)
        a = (float(h),) if m == 'zero_order_hold' and rng.random() < .3 else (float(h), m)
        res = call(C.from_symbolic_continuous, xs, us, e, *a)
    else:
        res = call(C.from_symbolic, xs, us, e)
    r = result(res, dyn.sys_fields)
    if r['k'] == 'ok' and not cont:
        for _ in range(3):
            x, u = [gen.dy(rng, -3, 3, 4) for _ in range(nx)], [gen.dy(rng, -3, 3, 4) for _ in range(nu)]
            y = result(call(res[1].simulate, vec(fl(x)), [vec(fl(u))]), lambda v: dict(y=dyn.traj(v)[1]))
            kw['q'].append(dict(x=ev(x), u=ev(u), y=y.get('y', [])))
    rec.emit('symsys', r=r, **kw)
