"""P18: controllability and the Riccati equation."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl
MODELS = []

def unimodular(rng, n):
    T = exact.eye(n)
    Ti = exact.eye(n)
    for _ in range(rng.randint(0, 4)):
        if n == 1:
            break
        i, j = rng.sample(range(n), 2)
        k = F(rng.choice([-2, -1, 1, 2]))
        E, Ei = exact.eye(n), exact.eye(n)
        E[i][j], Ei[i][j] = k, -k
        T, Ti = exact.matmul(T, E), exact.matmul(Ei, Ti)
    return T, Ti
def sysm(rng, nx, nu):
    u = rng.random()
    S = dyn.system(rng, nx, nu, False, k=2, den=2)
    if u < .45 and nx > 1:      # uncontrollable in transformed coordinates
        k = rng.randint(0, nx - 1)      # controllable dimension
        for i in range(k, nx):
            for j in range(k):
                S['A'][i][j] = F(0)
            S['B'][i] = [F(0)] * nu
        T, Ti = unimodular(rng, nx)
        S['A'] = exact.matmul(exact.matmul(T, S['A']), Ti)
        S['B'] = exact.matmul(T, S['B'])
    elif u < .55:               # weak coupling
        for i in range(nx):
            S['B'][i] = [v / rng.choice([1, 16, 256]) for v in S['B'][i]]
    elif u < .65:               # chain of integrators
        S['A'] = [[F(int(j == i or j == i + 1)) for j in range(nx)] for i in range(nx)]
        S['B'] = [[F(int(i == nx - 1 and j == 0)) for j in range(nu)] for i in range(nx)]
    return S
def cases(rng, tier):
    N = 1500 if tier == 'quick' else 5000
    out = []
    for i in range(N):
        nx, nu = rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([1, 1, 2])
        S = sysm(rng, nx, nu)
        Q, R = gen.spd(rng, nx, 1), gen.spd(rng, nu, 1)
        s, r = rng.choice([F(1), F(1), F(8), F(1, 8)]), rng.choice([F(1), F(1), F(16), F(1, 16)])
        q = []
        for _ in range(3):
            q.append([fl([gen.dy(rng, -2, 2, 2) for _ in range(nx)]), [fl([gen.dy(rng, -2, 2, 4) for _ in range(nu)]) for _ in range(rng.randint(1, 4))]])
        W = [dict(Q=fl([[s * v for v in w] for w in Q]), R=fl([[r * v for v in w] for w in R]))]
        while len(W) < 3 and rng.random() < .35:        # the same object is asked again with other weights
            W.append(dict(rng.choice(W)))
            if rng.random() < .6:
                k = rng.choice([2, 4, 8])
                W[-1]['R'] = [[k * v for v in w] for w in W[-1]['R']]
            else:
                W[-1]['Q'] = fl(gen.spd(rng, nx, 1))
        out.append(dict(S=dyn.sj(S), W=W, q=q, order=rng.random() < .5))
    return out
def reference(S, Q, R):
    """size of the solution, to leave badly scaled problems out"""
    import numpy as np
    from scipy.linalg import solve_discrete_are
    try:
        return abs(solve_discrete_are(np.array(fl(S['A'])), np.array(fl(S['B'])).reshape(S['nx'], S['nu']), np.array(fl(Q)), np.array(fl(R)))).max()
    except Exception:
        return np.inf

def control_wit(S):
    """exact certificate"""
    from rat import ev
    nx, nu = S['nx'], S['nu']
    cols, M = [], S['B']
    for k in range(nx):
        cols.append(M)
        M = exact.matmul(S['A'], M)
    # reachability matrix: inputs applied at t = nx-1, ..., 0
    Rm = [[cols[k][i][j] for k in range(nx) for j in range(nu)] for i in range(nx)]
    if exact.rank(Rm, nx * nu) == nx:
        us = []
        # solve Rm v = e_i on a pivot basis
        _, piv = exact.rref(Rm, nx * nu)
        Sq = [[r[p] for p in piv] for r in Rm]
        for i in range(nx):
            s = exact.solve(Sq, [F(int(k == i)) for k in range(nx)])
            v = [F(0)] * (nx * nu)
            for p, t in zip(piv, s):
                v[p] = t
            us.append([ev(v[k * nu:(k + 1) * nu]) for k in range(nx - 1, -1, -1)])
        return dict(k='yes', u=us)
    # w' Rm = 0
    E, piv = exact.rref(exact.transpose(Rm, nx * nu), nx)
    free = next(j for j in range(nx) if j not in piv)
    w = [F(0)] * nx
    w[free] = F(1)
    for r, p in zip(E, piv):
        w[p] = -r[free]
    return dict(k='no', w=ev(w))

def conditioned(S):
    """numerical rank is unambiguous"""
    import numpy as np
    A, B = np.array(fl(S['A'])), np.array(fl(S['B']))
    R = np.hstack([np.linalg.matrix_power(A, i).dot(B) for i in range(S['nx'])])
    s = np.linalg.svd(R)[1]
    if s[0] == 0:
        return True
    return s[-1] / s[0] > 1e-9

def run(case, rec):
    import numpy as np
    from scipy.linalg import solve_discrete_lyapunov
    from common import call, result, em, ev, rm, fr, rnd, bool_res, F
    S = dyn.sfr(case['S'])
    w = control_wit(S)
    o = dyn.make_sys(case['S'], True)
    e = dyn.senc(S)
    if w['k'] == 'yes' and not conditioned(S):
        return
    def ctrl():
        rec.emit('controllable', S=e, w=w, r=result(call(lambda: o.controllable), bool_res))
    if case['order']:
        ctrl()
    n, m = S['nx'], S['nu']
    q = [dict(x=ev(x), u=[ev(v) for v in u]) for x, u in case['q']]
    def fields(v):
        P, K = np.asarray(v[0], dtype=float), np.asarray(v[1], dtype=float)
        if P.ndim != 2 or K.ndim != 2:
            raise ValueError('shape')
        return dict(P=rm(P), K=rm(K))
    for W in case['W']:
        Q, R = fr(W['Q']), fr(W['R'])
        if w['k'] == 'yes' and not reference(S, Q, R) < 1e5:
            continue
        res = call(o.solve_dare, arr(W['Q']), arr(W['R']))
        lyap = [[F(0)] * n for _ in range(n)]
        r = result(res, fields)
        if r['k'] == 'ok':
            try:
                Acl = np.array(case['S']['A']) + np.array(case['S']['B']).reshape(n, m).dot(np.asarray(res[1][1], dtype=float))
                V = solve_discrete_lyapunov(Acl.T, np.eye(n))
                if np.isfinite(V).all():
                    lyap = [[rnd(V[min(i, j), max(i, j)], 40) for j in range(n)] for i in range(n)]
            except Exception:
                pass
        rec.emit('dare', S=e, w=w, Q=em(Q), R=em(R), lyap=em(lyap), q=q, r=r)
    ctrl()
