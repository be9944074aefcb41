"""P10: strictly convex quadratic programs."""
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = []
UNITS = [F(1, 128), F(1, 32), F(1, 8), F(8), F(32)]

def cases(rng, tier):
    N = 8000 if tier == 'quick' else 40000
    out = []
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        kind = rng.choice(['bounded', 'bounded', 'bounded', 'cone', 'cone', 'any', 'empty', 'thin'])
        neq = rng.choice([0, 0, 0, 1, 1, 2]) if n > 1 else rng.choice([0, 0, 0, 1])
        neq = min(neq, n - 1) if rng.random() < .9 else min(neq, n)
        P = gen.poly(rng, n, rng.randint(1, 2 * n + 4), kind, neq,
                     scale=rng.choice([F(1)] * 6 + ([F(16), F(1, 16)] if kind == 'bounded' and neq < n else [])))
        H = gen.spd(rng, n)
        s = rng.choice([F(1)] * 5 + [F(1, 16), F(16)])
        H = [[s * x for x in r] for r in H]
        style = rng.random()
        if style < .15:
            f = [F(0)] * n
        elif style < .5 and P['A']:
            # start from a prescribed optimum on some rows, with prescribed (possibly tiny) multipliers
            fe = exact.feas(P['A'], P['b'], P['C'], P['d'], n)
            if fe[0] == 'pt':
                x = fe[1]
                tight = [r for r, v in zip(P['A'], P['b']) if exact.dot(r, x) == v]
                g = [-v for v in exact.matvec(H, x)]
                for r in tight:
                    m = rng.choice([F(0), F(1), F(1, 2), F(2), F(1, 2 ** 8), F(1, 2 ** 13), F(1, 2 ** 15)])
                    g = [a - m * t for a, t in zip(g, r)]
                f = g
                if any(v.denominator & (v.denominator - 1) or v.denominator > 2 ** 40 for v in f):
                    f = gen.row(rng, n, 3, 2, nz=False)
            else:
                f = gen.row(rng, n, 3, 2, nz=False)
        else:
            f = gen.row(rng, n, rng.choice([3, 3, 20]), 2, nz=False)
        if rng.random() < .03:
            P['A'], P['b'] = [], []
        if rng.random() < .05 and P['C']:
            P['C'].append([2 * x for x in P['C'][0]])
            P['d'].append(2 * P['d'][0] + rng.choice([F(0), F(0), F(1)]))
        out.append(dict(H=fl(H), f=fl(f), p=pj(P)))
    for i in range(N // 10):
        n = rng.choice([1, 2, 3])
        P = gen.poly(rng, n, 2 * n + 2, 'bounded')
        r = rng.choice(P['A'])
        m = F(1, rng.choice([2 ** 6, 2 ** 9, 2 ** 11]))
        s = exact.lp(r, P['A'], P['b'])
        P['A'].append(list(r))
        P['b'].append(s.val + rng.choice([-m, m]))
        out.append(dict(H=fl(gen.spd(rng, n)), f=fl(gen.row(rng, n, 2, 2, nz=False)), p=pj(P)))
    for i in range(N // 20):     # the minimum without the equalities nearly satisfies them
        n = rng.choice([2, 2, 3])
        x = [gen.dy(rng, -2, 2, 4) for _ in range(n)]
        H = gen.spd(rng, n)
        A = [gen.row(rng, n, 2, 2) for _ in range(rng.randint(1, 4))]
        b = [exact.dot(r, x) + F(rng.randint(1, 8), 4) for r in A]
        C = [gen.row(rng, n, 2, 1)]
        d = [exact.dot(C[0], x) + F(rng.choice([-1, 1]), 2 ** rng.choice([8, 12, 14, 16]))]
        if rng.random() < .3:       # or nearly an inequality
            A, b, C, d = A + C, b + [min(d[0], 2 * exact.dot(C[0], x) - d[0])], [], []
        out.append(dict(H=fl(H), f=fl([-v for v in exact.matvec(H, x)]), p=pj(dict(n=n, A=A, b=b, C=C, d=d))))
    for i in range(N // 5):      # one variable measured in other units
        n = rng.choice([1, 2, 2, 3])
        P = gen.poly(rng, n, rng.randint(1, 2 * n + 3), rng.choice(['bounded', 'bounded', 'cone']), rng.choice([0, 0, 1]) if n > 1 else 0)
        H, f = gen.spd(rng, n), gen.row(rng, n, 3, 2, nz=False)
        j, s = rng.randrange(n), rng.choice(UNITS)
        for M in (P['A'], P['C'], [f]):
            for r in M:
                r[j] *= s
        for k in range(n):
            H[j][k] *= s
        for k in range(n):
            H[k][j] *= s
        out.append(dict(H=fl(H), f=fl(f), p=pj(P)))
    for i, c in enumerate(out):      # also through the drake front end (on a stand-in for pydrake)
        c['drake'] = i % 8 == 0
    # tight rows that depend on each other
    out.append(dict(drake=True, H=[[1., 0.], [0., 1.]], f=[-2., -2.],
                    p=dict(n=2, A=[[1., 0.], [0., 1.], [1., 1.]], b=[1., 1., 2.], C=[], d=[])))
    # known finding: wrong multipliers from gurobi's presolve on implied equalities written as opposite rows
    out.append(dict(id='gurobi-opposite-rows', all=True, H=[[8.25, 3.0, -3.0], [3.0, 3.25, -1.25], [-3.0, -1.25, 2.5]],
                    f=[-1.50390625, -1.00390625, 1.0], p=dict(n=3, A=[[-3.0, 2.0, 3.0], [3.0, 3.0, 2.0], [3.0, 2.0, -2.0],
                    [1.0, 1.0, 0.0], [-2.0, -2.0, 0.0]], b=[160.0, 64.0, 0.0, 0.0, 0.0], C=[], d=[])))
    return out

def slater(P):
    """some point of the equalities satisfies every (nonzero) inequality strictly"""
    n = P['n']
    rows = [(r, v) for r, v in zip(P['A'], P['b']) if any(r)]
    z = [F(0)] * n
    s = exact.lp(z + [F(-1)], [r + [F(1)] for r, _ in rows] + [z + [F(1)]], [v for _, v in rows] + [F(1)],
                 [r + [F(0)] for r in P['C']], P['d'])
    return s.status == 'opt' and s.val < 0

def run(case, rec):
    from common import pol_exact, pol_enc, arrays, qp_wit, sol_fields, call, result, vec, arr, ev, em, fr
    from pympc.optimization.programs import quadratic_program
    P, f, H = pol_exact(case['p']), fr(case['f']), fr(case['H'])
    w = qp_wit(H, f, P)
    p = pol_enc(P)
    p['f'], p['H'] = ev(f), em(H)
    A, b, C, d = arrays(case['p'])
    for solver in ('pnnls', 'gurobi'):
        if solver == 'gurobi' and w['k'] == 'opt' and not case.get('all') and not slater(P):
            continue        # opposite rows / implied equalities: see the known finding
        res = call(quadratic_program, arr(case['H']), vec(case['f']), A.copy(), b.copy(), None if C is None else C.copy(),
                   None if d is None else d.copy(), solver=solver)
        rec.emit('qp', p=p, w=w, solver=solver, r=result(res, sol_fields(len(b))))
    if case.get('drake') and all(any(r) for r in P['A'] + P['C']):
        import standin_drake
        m = standin_drake.module()
        if m is None or not standin_drake.regular(P, w):
            return
        res = call(m.quadratic_program, arr(case['H']), vec(case['f']), A.copy(), b.copy(), None if C is None else C.copy(), None if d is None else d.copy())
        if not standin_drake.unknown(res):
            rec.emit('qp', p=p, w=w, solver='drake', r=result(res, sol_fields(len(b))))
