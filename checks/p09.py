"""P09: linear programs."""
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = []

def cases(rng, tier):
    N = 8000 if tier == 'quick' else 60000
    out = []
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        kind = rng.choice(['bounded', 'bounded', 'bounded', 'cone', 'cone', 'any', 'empty', 'thin'])
        neq = rng.choice([0, 0, 0, 1, 1, 2]) if n > 1 else rng.choice([0, 0, 0, 1])
        neq = min(neq, n - 1) if rng.random() < .9 else min(neq, n)
        P = gen.poly(rng, n, rng.randint(1, 2 * n + 4), kind, neq, scale=rng.choice([F(1)] * 6 + [F(64), F(512)] + ([F(1, 64)] if kind != 'empty' else [])))
        style = rng.random()
        if style < .1:
            f = [F(0)] * n
        elif style < .25 and P['A']:
            # cost parallel to a facet: several optima; or tiny multiplier
            r = rng.choice(P['A'])
            f = [-x * rng.choice([F(1), F(1, 2)]) for x in r]
        elif style < .4 and len(P['A']) >= 2:
            # one multiplier is much smaller than the other
            r, s = rng.sample(P['A'], 2)
            e = F(1, rng.choice([2 ** 7, 2 ** 10, 2 ** 13, 2 ** 16]))
            f = [-x - e * y for x, y in zip(r, s)]
        else:
            f = gen.row(rng, n, 3, 2, nz=False)
        if rng.random() < .03:
            P['A'], P['b'] = [], []
        if rng.random() < .05 and P['C']:     # consistent or contradictory dependent equality
            P['C'].append([2 * x for x in P['C'][0]])
            P['d'].append(2 * P['d'][0] + rng.choice([F(0), F(0), F(1)]))
        out.append(dict(f=fl(f), p=pj(P)))
    for i in range(N // 2):      # sparse rows: free directions, unbounded faces of optima
        n = rng.choice([2, 3, 4, 4, 5, 6])
        A = []
        for _ in range(rng.randint(2, 2 * n + 3)):
            r = [F(0)] * n
            for j in rng.sample(range(n), rng.randint(1, min(3, n))):
                r[j] = F(rng.choice([-4, -2, -2, 2, 2, 4, -3, 1]), 2)
            A.append(r)
        x = [F(rng.randint(-16, 16), 8) for _ in range(n)]
        b = [exact.dot(r, x) + F(rng.randint(-1 if rng.random() < .1 else 0, 40), 16) for r in A]
        f = [-v for v in rng.choice(A)] if rng.random() < .7 else gen.row(rng, n, 2, 1, nz=False)
        out.append(dict(f=fl(f), p=pj(dict(n=n, A=A, b=b, C=[], d=[]))))
    for i in range(N // 4):      # the same programs in other units: one variable measured in large or small units
        n = rng.choice([1, 2, 2, 3])
        P = gen.poly(rng, n, rng.randint(1, 2 * n + 3), rng.choice(['bounded', 'bounded', 'cone']), rng.choice([0, 0, 1]) if n > 1 else 0)
        f = gen.row(rng, n, 3, 2)
        j, s = rng.randrange(n), rng.choice([F(1, 2 ** 16), F(1, 2 ** 14), F(1, 2 ** 10), F(1, 64), F(64), F(2 ** 10)])
        for M in (P['A'], P['C'], [f]):
            for r in M:
                r[j] *= s
        out.append(dict(f=fl(f), p=pj(P)))
    for i in range(N // 8):      # infeasible by a small margin / just feasible
        n = rng.choice([1, 2, 3])
        P = gen.poly(rng, n, 2 * n + 2, 'bounded', scale=rng.choice([F(1), F(1), F(64), F(512)]))
        r = rng.choice(P['A'])
        j = P['A'].index(r)
        m = F(1, rng.choice([2 ** 6, 2 ** 9, 2 ** 12, 2 ** 14]))
        # the optimum of P along -r: put an opposite row beyond it
        s = exact.lp(r, P['A'], P['b'])
        P['A'].append(list(r))
        P['b'].append(s.val + rng.choice([-m, m]))
        out.append(dict(f=fl(gen.row(rng, n, 2, 2)), p=pj(P)))
    for i, c in enumerate(out):      # also through the drake front end (on a stand-in for pydrake)
        c['drake'] = i % 8 == 0
    # tight rows that depend on each other
    out.append(dict(drake=True, f=[-1., -1.], p=dict(n=2, A=[[1., 0.], [0., 1.], [1., 2.], [-1., 1.]], b=[1., 1., 3., 0.], C=[], d=[])))
    return out

def run(case, rec):
    from common import pol_exact, pol_enc, arrays, lp_wit, sol_fields, call, result, vec, ev, fr
    from pympc.optimization.programs import linear_program
    import numpy as np
    P, f = pol_exact(case['p']), fr(case['f'])
    w = lp_wit(f, P)
    p = pol_enc(P)
    p['f'] = ev(f)
    A, b, C, d = arrays(case['p'])
    for solver in ('pnnls', 'gurobi'):
        res = call(linear_program, vec(case['f']), A.copy(), b.copy(), None if C is None else C.copy(),
                   None if d is None else d.copy(), solver=solver)
        rec.emit('lp', p=p, w=w, solver=solver, r=result(res, sol_fields(len(b))))
    if case.get('drake') and all(any(r) for r in P['A'] + P['C']):
        import standin_drake
        m = standin_drake.module()
        if m is None or not standin_drake.regular(P, w):
            return
        res = call(m.linear_program, vec(case['f']), A.copy(), b.copy(), None if C is None else C.copy(), None if d is None else d.copy())
        if not standin_drake.unknown(res):
            rec.emit('lp', p=p, w=w, solver='drake', r=result(res, sol_fields(len(b))))
