"""P11: mixed-integer quadratic programs, directly and through the parametric program."""
from fractions import Fraction as F
import itertools, gen, exact
from gen import fl, pj
MODELS = []

def cases(rng, tier):
    N = 4000 if tier == 'quick' else 6000
    out = []
    for i in range(N):
        nc, nb = rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([1, 2, 2, 3, 3, 4, 5])
        n = nc + nb
        H = gen.spd(rng, n, 1, 2)
        f = gen.row(rng, n, 3, 4, nz=False)
        A, b = [], []
        c = [gen.dy(rng, -1, 1, 4) for _ in range(nc)] + [F(rng.randint(0, 1)) for _ in range(nb)]
        infeas = rng.random() < .2
        for _ in range(rng.randint(1, 7)):
            r = gen.row(rng, n, 2, 1)
            A.append(r)
            b.append(exact.dot(r, c) + F(rng.randint(-6 if infeas else 0, 6), 4))
        if infeas and rng.random() < .5:
            # relaxation feasible, binaries not:  1/4 <= d_k <= 3/4
            k = nc + rng.randrange(nb)
            e = [F(int(j == k)) for j in range(n)]
            A += [e, [-v for v in e]]
            b += [F(3, 4), F(-1, 4)]
        C, d = [], []
        if rng.random() < .35:
            r = gen.row(rng, n, 1, 1)
            if any(r[:nc]) or rng.random() < .6:
                C.append(r)
                d.append(exact.dot(r, c))
        if rng.random() < .2 and nb > 1 and not C:
            C.append([F(0)] * nc + [F(1)] * nb)
            d.append(F(1))
        if nc and rng.random() < .15:        # a continuous variable measured in other units
            j, s = rng.randrange(nc), rng.choice([F(1, 32), F(1, 8), F(8), F(32)])
            for M in (A, C, [f]):
                for r in M:
                    r[j] *= s
            for k in range(n):
                H[j][k] *= s
            for k in range(n):
                H[k][j] *= s
        case = dict(drake=i % 8 == 0, nc=nc, nb=nb, H=fl(H), f=fl(f), p=pj(dict(n=n, A=A, b=b, C=C, d=d)))
        out.append(case)
    for i in range(N // 2):
        # the parametric form: blocks u, z, d, x
        nu, nz, nd, nx = rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([1, 2])
        Huu, Hzz, Hxx = gen.spd(rng, nu, 1), gen.spd(rng, nz, 1), gen.psd(rng, nx)
        Hzx = [gen.row(rng, nx, 2, 2, nz=False) for _ in range(nz)]
        m = rng.randint(2, 6)
        c = [gen.dy(rng, -1, 1, 4) for _ in range(nu + nz)] + [F(rng.randint(0, 1)) for _ in range(nd)]
        Au = [gen.row(rng, nu, 2, 1, nz=False) for _ in range(m)]
        Az = [gen.row(rng, nz, 2, 1, nz=False) for _ in range(m)]
        Ad = [gen.row(rng, nd, 2, 1, nz=False) for _ in range(m)]
        Ax = [gen.row(rng, nx, 2, 1, nz=False) for _ in range(m)]
        x = [gen.dy(rng, -2, 2, 2) for _ in range(nx)]
        b = [exact.dot(Au[i] + Az[i] + Ad[i], c) + exact.dot(Ax[i], x) + F(rng.randint(-1, 6), 4) for i in range(m)]
        out.append(dict(kind='mp', Huu=fl(Huu), Hzz=fl(Hzz), Hxx=fl(Hxx), Hzx=fl(Hzx), Au=fl(Au), Az=fl(Az), Ad=fl(Ad),
                        Ax=fl(Ax), b=fl(b), x=fl(x)))
    return out

def mi_wit(nc, H, f, P):
    """one exact certificate per binary assignment"""
    n = P['n']
    w = []
    for d in itertools.product([0, 1], repeat=n - nc):
        A = [r[:nc] for r in P['A']]
        b = [v - exact.dot(r[nc:], d) for r, v in zip(P['A'], P['b'])]
        C = [r[:nc] for r in P['C']]
        e = [v - exact.dot(r[nc:], d) for r, v in zip(P['C'], P['d'])]
        Hc = [r[:nc] for r in H[:nc]]
        fc = [f[i] + exact.dot(H[i][nc:], d) for i in range(nc)]
        s = exact.qp(Hc, fc, A, b, C, e)
        from rat import ev
        if s[0] == 'opt':
            w.append(dict(d=list(d), k='opt', x=ev(s[1]), y=ev(s[2]), z=ev(s[3])))
        else:
            w.append(dict(d=list(d), k='inf', y=ev(s[1]), z=ev(s[2])))
    return w

def run(case, rec):
    import numpy as np
    from common import pol_exact, pol_enc, arrays, call, result, vec, arr, ev, em, fr, enc, rnd, rv
    from pympc.optimization.programs import mixed_integer_quadratic_program
    from pympc.optimization.parametric_programs import MultiParametricMixedIntegerQuadraticProgram
    if case.get('kind') == 'mp':
        g = {k: fr(case[k]) for k in ('Huu', 'Hzz', 'Hxx', 'Hzx', 'Au', 'Az', 'Ad', 'Ax', 'b', 'x')}
        nu, nz, nx, m = len(g['Huu']), len(g['Hzz']), len(g['x']), len(g['b'])
        nd = len(g['Ad'][0])
        x = g['x']
        n = nu + nz + nd
        H = [[F(0)] * n for _ in range(n)]
        for i in range(nu):
            H[i][:nu] = g['Huu'][i]
        for i in range(nz):
            H[nu + i][nu:nu + nz] = g['Hzz'][i]
        f = [F(0)] * nu + exact.matvec(g['Hzx'], x) + [F(0)] * nd
        P = dict(n=n, A=[a + b_ + c for a, b_, c in zip(g['Au'], g['Az'], g['Ad'])],
                 b=[v - exact.dot(r, x) for v, r in zip(g['b'], g['Ax'])], C=[], d=[])
        off = exact.dot(x, exact.matvec(g['Hxx'], x)) / 2
        p = pol_enc(P)
        p['f'], p['H'] = ev(f), em(H)
        w = mi_wit(nu + nz, H, f, P)
        Hd = {'uu': arr(case['Huu']), 'zz': arr(case['Hzz']), 'xx': arr(case['Hxx']), 'zx': arr(case['Hzx'], nx)}
        Ad = {'u': arr(case['Au'], nu), 'z': arr(case['Az'], nz), 'd': arr(case['Ad'], nd), 'x': arr(case['Ax'], nx)}
        res = call(MultiParametricMixedIntegerQuadraticProgram, Hd, Ad, vec(case['b']))
        if res[0] == 'ok':
            res = call(res[1].solve, vec(case['x']))
        def fields(s):
            if s['min'] is None and all(s[k] is None for k in ('u', 'z', 'd')):
                return None
            return dict(min=enc(rnd(s['min'])), argmin=rv(np.concatenate([np.asarray(s[k], dtype=float).reshape(-1) for k in ('u', 'z', 'd')])))
        rec.emit('miqp', p=p, w=w, nc=nu + nz, off=enc(off), r=result(res, fields))
        return
    P, f, H = pol_exact(case['p']), fr(case['f']), fr(case['H'])
    nc = case['nc']
    w = mi_wit(nc, H, f, P)
    p = pol_enc(P)
    p['f'], p['H'] = ev(f), em(H)
    A, b, C, d = arrays(case['p'])
    res = call(mixed_integer_quadratic_program, nc, arr(case['H']), vec(case['f']), A, b, C, d)
    def fields(s):
        if s['min'] is None and s['argmin'] is None:
            return None
        return dict(min=enc(rnd(s['min'])), argmin=rv(np.asarray(s['argmin'], dtype=float).reshape(-1)))
    rec.emit('miqp', p=p, w=w, nc=nc, off=enc(0), r=result(res, fields))
    if case.get('drake') and all(any(r) for r in P['A'] + P['C']):
        import standin_drake
        m = standin_drake.module()
        if m is None:
            return
        res = call(m.mixed_integer_quadratic_program, nc, arr(case['H']), vec(case['f']), A, b, C, d)
        if not standin_drake.unknown(res):
            rec.emit('miqp', p=p, w=w, nc=nc, off=enc(0), r=result(res, fields))
