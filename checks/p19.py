"""P19: maximal constraint-admissible invariant sets."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl, pj
from p18 import unimodular
MODELS = [dict(module='InvariantSet.tla', cfg='MC_InvariantSet.cfg'),
          dict(module='InvariantSet.tla', cfg='MC_InvariantSet_bad_limit.cfg', expect='Admissible'),
          dict(module='InvariantSet.tla', cfg='MC_InvariantSet_bad_skip.cfg', expect='Admissible')]
BOX = F(1000)
TMAX = 12

def contraction(rng, n):
    """strictly stable matrix: contractive, with transient growth, rotating, nilpotent"""
    u = rng.random()
    if u < .3:
        A = dyn.system(rng, n, 1, False, k=2, stable=True)['A']
        if rng.random() < .5:
            A = [[v * F(rng.choice([3, 4, 5]), 4) for v in r] for r in A]
    elif u < .75:               # triangular with known eigenvalues, large coupling
        A = [[F(0)] * n for _ in range(n)]
        for i in range(n):
            A[i][i] = F(rng.choice([-7, -6, -4, -2, 0, 2, 4, 5, 6, 7]), 8)
            for j in range(i + 1, n):
                A[i][j] = gen.dy(rng, -2, 2, 2)
        if n > 1 and rng.random() < .5:
            p = list(range(n))
            rng.shuffle(p)
            A = [[A[p[i]][p[j]] for j in range(n)] for i in range(n)]
    elif u < .9 and n >= 2:     # damped rotation
        r = F(rng.choice([3, 4, 5, 6]), 8)
        A = [[F(0)] * n for _ in range(n)]
        A[0][1], A[1][0] = -r * rng.choice([1, 1, 2, F(1, 2)]), r
        if A[0][1] != -r:
            A[1][0] = r * r / -A[0][1]
        for i in range(2, n):
            A[i][i] = F(rng.choice([-1, 1, 2]), 4)
            A[0][i] = gen.dy(rng, -1, 1, 2)
    else:                       # nilpotent
        A = [[gen.dy(rng, -2, 2, 1) if j > i else F(0) for j in range(n)] for i in range(n)]
    return A
def slow(rng):
    """planar system that takes many steps to settle"""
    if rng.random() < .6:       # lightly damped rotation
        while True:
            c, s = F(rng.randint(-60, 64), 64), F(rng.randint(3, 60), 64)
            if rng.random() < .5:
                c, s = F(rng.randint(60, 63), 64), F(rng.randint(4, 14), 64)
            if F(88, 100) < c * c + s * s < F(97, 100):
                k = rng.choice([F(1), F(2), F(1, 2), F(4), F(1, 4), F(8)])
                return [[c, -s * k], [s / k, c]]
    if rng.random() < .5:       # slow double mode: peaks late
        a, b = F(rng.choice([28, 29, 30, 31]), 32), F(rng.choice([28, 29, 30, 31, -29]), 32)
        return [[a, F(rng.choice([-8, -4, -1, 1, 2, 4, 8]), 8)], [F(0), b]]
    a, b = F(rng.choice([13, 14, 15, 15]), 16), F(rng.choice([-7, 6, 7, 14, 15, 15]), 16 if rng.random() < .7 else 32)
    return [[a, F(rng.choice([-8, -4, -2, -1, 1, 2, 4, 8, 16]), 4)], [F(0), b]]
def around_origin(rng, n, k=None):
    """bounded set with the origin in its interior"""
    lo = [-F(rng.randint(1, 16), 4) for _ in range(n)]
    hi = [F(rng.randint(1, 16), 4) for _ in range(n)]
    A, b = gen.box(n, lo, hi)
    for _ in range(rng.choice([0, 0, 1, 2, 3]) if k is None else k):
        r = gen.row(rng, n, 2, 2)
        A.append(r)
        b.append(F(rng.randint(1, 16), 4))
    if rng.random() < .15:
        i = rng.randrange(len(A))
        s = rng.choice([F(1), F(2)])
        A.append([s * v for v in A[i]])
        b.append(s * b[i])
    return dict(n=n, A=A, b=b, C=[], d=[])
def lopsided(rng):
    """planar box (and a cut) much larger on one side of the origin"""
    lo, hi = [[F(rng.choice([1, 2, 3, 16, 32]), 4) for _ in range(2)] for _ in range(2)]
    A, b = gen.box(2, [-v for v in lo], hi)
    if rng.random() < .4:
        A.append(gen.row(rng, 2, 2, 2))
        b.append(F(rng.randint(1, 16), 4))
    return dict(n=2, A=A, b=b, C=[], d=[])
def thin(rng):
    """the first step cuts a sliver off the set"""
    lam, a = F(rng.choice([0, 1, 2, 3]), 4), F(rng.choice([1, 2, 3]), rng.choice([1, 2, 4]))
    b2 = F(rng.randint(2, 12), 4)
    b1 = F(float((a * b2 - F(rng.choice([1, 1, 2, 8]), 2 ** 18)) / (1 - lam)))
    mu = F(rng.choice([-2, 0, 0, 1, 2]), 4)
    A = [[lam, a * rng.choice([1, -1])], [F(0), mu]]
    lo = [-b1 * rng.choice([1, 2]), -b2]
    X = gen.box(2, lo, [b1, b2])
    return A, dict(n=2, A=X[0], b=X[1], C=[], d=[])
def units(rng, n):
    return [rng.choice([F(1), F(1), F(2 ** 6), F(2 ** 7), F(1, 2 ** 6), F(1, 2 ** 10)]) for _ in range(n)]
def rescale(A, X, u):
    """the same system with the states measured in other units (X may also constrain inputs)"""
    n = len(A)
    A = [[A[i][j] * u[i] / u[j] for j in range(n)] for i in range(n)]
    v = list(u) + [F(1)] * (X['n'] - n)
    return A, dict(X, A=[[w / k for w, k in zip(r, v)] for r in X['A']])
def cases(rng, tier):
    N = 400 if tier == 'quick' else 5000
    out = []
    for i in range(N):
        u = rng.random()
        n = rng.choice([1, 2, 2, 2, 3])
        X = around_origin(rng, n)
        A = contraction(rng, n)
        c = dict(A=fl(A), X=pj(X), verbose=rng.random() < .1)
        if u < .1:
            c['kind'] = 'unstable'
            if n >= 2 and rng.random() < .4:
                r = F(rng.choice([9, 10, 12, 16]), 8)
                A = contraction(rng, n)
                for j in range(n):
                    A[0][j] = A[1][j] = F(0)
                A[0][1], A[1][0] = -r, r
                p, lam = 4, r ** 4
            else:
                lam, p = F(rng.choice([-16, -12, -9, 9, 10, 12, 16]), 8), 1
                A = contraction(rng, n)
                A[0] = [lam] + [F(0)] * (n - 1)
            T, Ti = unimodular(rng, n)
            c['A'] = fl(exact.matmul(exact.matmul(T, A), Ti))
            c.update(v=fl(Ti[0]), lam=float(lam), p=p)
        elif u < .2:
            c['kind'] = 'no-origin'
            j = rng.randrange(len(X['A']))
            a = X['A'][j]
            sh = [v * F(rng.randint(3, 12), 4) * max(X['b'][j], F(1, 2)) / exact.dot(a, a) for v in a]
            X['b'] = [b - exact.dot(r, sh) for r, b in zip(X['A'], X['b'])]
            if X['b'][j] > -F(1, 1000):
                X['b'][j] = -F(1, 4)
            X['b'] = [F(float(b)) for b in X['b']]
            c['X'] = pj(X)
        elif u < .3:
            c['kind'] = 'unbounded'
            ray = gen.row(rng, n, 1, 1)
            rows = [(r, b) for r, b in zip(X['A'], X['b']) if exact.dot(r, ray) <= 0]
            c['X'] = pj(dict(n=n, A=[r for r, _ in rows], b=[b for _, b in rows], C=[], d=[]))
            c['ray'] = fl(ray)
        elif u < .6:
            c['kind'] = 'set'
            if i % 2 == 0:
                c.update(A=fl(slow(rng)), X=pj(lopsided(rng) if rng.random() < .6 else around_origin(rng, 2)), tmax=60)
            elif rng.random() < .4:
                A, X = thin(rng)
                c.update(A=fl(A), X=pj(X))
            elif rng.random() < .5:
                A, X = rescale(A, X, units(rng, n))
                c.update(A=fl(A), X=pj(X))
        else:
            c['kind'] = 'set'
            nu = rng.choice([1, 1, 2])
            B = [[gen.dy(rng, -2, 2, 2) for _ in range(nu)] for _ in range(n)]
            D = around_origin(rng, n + nu)
            if rng.random() < .25:
                A, D = rescale(A, D, units(rng, n))
            K = [[gen.dy(rng, -1, 1, 2) for _ in range(n)] for _ in range(nu)]
            BK = exact.matmul(B, K)
            c['S'] = dyn.sj(dict(nx=n, nu=nu, A=[[a - b for a, b in zip(r, s)] for r, s in zip(A, BK)], B=B, c=[F(0)] * n))
            c['K'] = fl(K)
            c['D'] = pj(D)
            if rng.random() < .4:       # the same object is asked again: another set, another gain
                D2 = dict(D, b=[v * rng.choice([1, 2, F(1, 2)]) for v in D['b']]) if rng.random() < .5 else around_origin(rng, n + nu)
                K2 = K if rng.random() < .4 else [[v + gen.dy(rng, -1, 1, 8) for v in r] for r in K]
                c['more'] = [dict(K=fl(K2), D=pj(D2))]
        out.append(c)
    return out

def settle(X, A, tmax=TMAX):
    """smallest T with: one more step imposes nothing new; (T, certificates, rows of the admissible set)"""
    from common import row_cert
    O = dict(n=X['n'], A=list(X['A']), b=list(X['b']), C=[], d=[])
    full = dict(O, A=list(O['A']), b=list(O['b']))
    J = X['A']
    for T in range(tmax + 1):
        J = exact.matmul(J, A)
        new = []
        for r, v in zip(J, X['b']):
            s = exact.lp([-x for x in r], O['A'], O['b'])
            if -s.val > v:
                new.append((r, v))
        if not new:
            return T, [row_cert(full, r, v) for r, v in zip(J, X['b'])], full
        full = dict(full, A=full['A'] + J, b=full['b'] + X['b'])
        for r, v in new:
            O['A'].append(r)
            O['b'].append(v)
    return None

def run(case, rec):
    import numpy as np
    from scipy.linalg import solve_discrete_lyapunov
    from common import pol_exact, pol_enc, make, call, result, same_set, rpoly_of, enc, em, ev, fr, bounded_wit, row_cert, rnd
    from pympc.dynamics.discrete_time_systems import mcais
    o = case.get('object')
    f = {}
    if 'S' in case:
        S, K, D = dyn.sfr(case['S']), fr(case['K']), pol_exact(case['D'])
        n, nu = S['nx'], S['nu']
        A = exact.madd(S['A'], exact.matmul(S['B'], K))
        X = dict(n=n, A=[[a + b for a, b in zip(r[:n], exact.tvec(K, r[n:], n))] for r in D['A']], b=D['b'], C=[], d=[])
        f = dict(S=dyn.senc(S), K=em(K), D=pol_enc(D))
    else:
        A, X = fr(case['A']), pol_exact(case['X'])
        n = X['n']
    w = dict(k=case['kind'])
    if case['kind'] == 'unstable':
        w.update(v=ev(fr(case['v'])), lam=enc(fr(case['lam'])), p=case['p'])
    elif case['kind'] == 'unbounded':
        w['ray'] = ev(fr(case['ray']))
    elif case['kind'] == 'set':
        bw = bounded_wit(X)
        if bw['k'] != 'bounded':
            return          # unbounded in the state: outside the claim for controlled systems
        st = settle(X, A, case.get('tmax', TMAX))
        if st is None:
            return
        W = solve_discrete_lyapunov(np.array(fl(A)).T, np.eye(n))
        w.update(T=st[0], settled=st[1], c=bw['c'], W=em([[rnd(W[min(i, j), max(i, j)], 40) for j in range(n)] for i in range(n)]))
    if 'S' in case:
        o = o or dyn.make_sys(case['S'], True)
        res = call(o.mcais, arr(case['K']), make(case['D']))
    elif case['verbose']:
        res = call(mcais, arr(case['A']), make(case['X']), verbose=True)
    else:
        res = call(mcais, arr(case['A']), make(case['X']))
    got = [None]
    def fields(p):
        got[0] = rpoly_of(p)
        return dict(p=pol_enc(got[0]))
    r = result(res, fields)
    if case['kind'] == 'set' and got[0]:
        O = got[0]
        w.update(same_set(O, st[2], BOX))
        w['need'] = [row_cert(dict(O, A=O['A'][:k] + O['A'][k + 1:], b=O['b'][:k] + O['b'][k + 1:]), O['A'][k], O['b'][k])
                     for k in range(len(O['A']))]
    rec.emit('mcais', A=em(A), X=pol_enc(X), box=enc(BOX), w=w, r=r, **f)
    for q in case.get('more', []):
        Acl = np.array(case['S']['A']) + np.array(case['S']['B']).reshape(n, -1).dot(np.array(q['K']))
        if max(abs(np.linalg.eigvals(Acl))) < .95:
            run(dict(case, more=[], object=o, **q), rec)
