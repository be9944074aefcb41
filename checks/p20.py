"""P20: linear model predictive control."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl, pj
from p19 import around_origin
MODELS = []

def stage_set(rng, nx, nu, eq=False):
    n = nx + nu
    D = around_origin(rng, n)
    u = rng.random()
    if u < .2:                  # one-sided / partly unbounded
        keep = [i for i in range(len(D['A'])) if rng.random() < .7] or [0]
        D['A'], D['b'] = [D['A'][i] for i in keep], [D['b'][i] for i in keep]
    elif u < .35:               # origin not inside
        j = rng.randrange(len(D['A']))
        D['b'][j] = -D['b'][j] / 4
        i = next((i for i in range(len(D['A'])) if i != j and all(a == -b for a, b in zip(D['A'][i], D['A'][j]))), None)
        if i is not None:
            D['b'][i] = -D['b'][j] + F(rng.randint(2, 8), 2)
    if rng.random() < .2:       # rows of very different sizes
        for i in range(len(D['A'])):
            k = rng.choice([F(1), F(1), F(1, 2 ** 7), F(1, 2 ** 9), F(32)])
            D['A'][i], D['b'][i] = [k * v for v in D['A'][i]], k * D['b'][i]
    if eq:
        r = gen.row(rng, n, 1, 1)
        if not any(r[nx:]):
            r[nx + rng.randrange(nu)] = F(1)
        D['C'], D['d'] = [r], [F(rng.randint(-1, 1), 4)]
    return D
def terminal(rng, nx, eq=False):
    X = around_origin(rng, nx)
    u = rng.random()
    if u < .15:
        X = dict(n=nx, A=[], b=[], C=[], d=[])
        X['A'], X['b'] = gen.box(nx, [F(-64)] * nx, [F(64)] * nx)
    elif u < .3:                # small
        X['b'] = [v / 8 for v in X['b']]
    if eq:
        if rng.random() < .5:   # terminal point
            X = dict(n=nx, A=[], b=[], C=exact.eye(nx), d=[F(0)] * nx)
            if rng.random() < .5:
                X['A'], X['b'] = gen.box(nx, [F(-1)] * nx, [F(1)] * nx)
        else:
            X['C'], X['d'] = [gen.row(rng, nx, 1, 1)], [F(0)]
    return X
def weights(rng, nx, nu):
    Q = gen.spd(rng, nx, 1) if rng.random() < .6 else gen.psd(rng, nx)
    P = gen.spd(rng, nx, 1) if rng.random() < .6 else gen.psd(rng, nx)
    R = gen.spd(rng, nu, 1)
    return Q, R, P
def small(rng):
    """generic small problem, meant for the explicit controller"""
    nx, nu = rng.choice([(1, 1), (2, 1), (2, 1), (1, 2), (2, 2)])
    T = rng.choice([1, 2, 2, 3] if nu == 1 else [1, 2, 2])
    S = dyn.system(rng, nx, nu, False, k=1, den=8)
    if not any(v for r in S['B'] for v in r):
        S['B'][0][0] = F(1)
    n = nx + nu
    A, b = gen.box(n, [-F(rng.randint(12, 40), 8) for _ in range(n)], [F(rng.randint(12, 40), 8) for _ in range(n)])
    keep = [i for i in range(2 * n) if i % n >= nx or rng.random() < (.7 if T < 3 else .3)]
    X = around_origin(rng, nx, 1) if rng.random() < .5 else None
    if X is None:
        X = dict(n=nx, C=[], d=[])
        X['A'], X['b'] = gen.box(nx, [F(-9)] * nx, [F(8)] * nx)
    Q, R, P = gen.spd(rng, nx, 1), gen.spd(rng, nu, 1), gen.spd(rng, nx, 1)
    return dict(sys=[dyn.sj(S)], doms=[pj(dict(n=n, A=[A[i] for i in keep], b=[b[i] for i in keep], C=[], d=[]))], XN=pj(X), N=T,
                Q=fl(Q), R=fl(R), P=fl(P), pts=fl([[gen.dy(rng, -3, 3, 8) for _ in range(nx)] for _ in range(6)]),
                dirs=fl([gen.row(rng, nx, 2, 1) for _ in range(2)]), eq='', explicit=True)
def cases(rng, tier):
    N = 600 if tier == 'quick' else 4000
    out = []
    for i in range(N):
        if i % 3 == 0:
            out.append(small(rng))
            continue
        nx, nu = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])
        T = rng.choice([1, 2, 2, 3, 3, 4] if nu == 1 else [1, 2, 2, 3])
        S = dyn.system(rng, nx, nu, False, k=1, den=2)
        if rng.random() < .4:
            for j in range(nx):
                S['A'][j][j] = F(1)
        eq = rng.choice(['', '', '', 'D', 'X'])
        Q, R, P = weights(rng, nx, nu)
        sc = rng.choice([F(1), F(1), F(1, 4), F(4)])
        pts = [[gen.dy(rng, -2, 2, 8) for _ in range(nx)] for _ in range(4)]
        pts.append([F(0)] * nx)
        dirs = [gen.row(rng, nx, 2, 1) for _ in range(2)]
        out.append(dict(sys=[dyn.sj(S)], doms=[pj(stage_set(rng, nx, nu, eq == 'D'))], XN=pj(terminal(rng, nx, eq == 'X')), N=T,
                        Q=fl([[sc * v for v in r] for r in Q]), R=fl([[sc * v for v in r] for r in R]), P=fl([[sc * v for v in r] for r in P]),
                        pts=fl(pts), dirs=fl(dirs), eq=eq, explicit=rng.random() < .5 and not eq))
    for i in range(N // 15):         # long horizons
        nx, nu = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2)])
        S = dyn.system(rng, nx, nu, False, k=1, den=2)
        for j in range(nx):
            S['A'][j][j] = rng.choice([F(1), F(1), F(9, 8), F(3, 4)])
        if not any(v for r in S['B'] for v in r):
            S['B'][0][0] = F(1)
        n = nx + nu
        A, b = gen.box(n, [-F(16)] * nx + [-F(rng.randint(2, 8), 8) for _ in range(nu)], [F(16)] * nx + [F(rng.randint(2, 8), 8) for _ in range(nu)])
        X = dict(n=nx, C=[], d=[])
        X['A'], X['b'] = gen.box(nx, [F(-16)] * nx, [F(16)] * nx)
        out.append(dict(sys=[dyn.sj(S)], doms=[pj(dict(n=n, A=A, b=b, C=[], d=[]))], XN=pj(X), N=rng.choice([6, 8, 10, 11, 12]),
                        Q=fl(gen.spd(rng, nx, 1)), R=fl(gen.spd(rng, nu, 1)), P=fl(gen.spd(rng, nx, 1)),
                        pts=fl([[gen.dy(rng, -3, 3, 8) for _ in range(nx)] for _ in range(2)]), dirs=[], eq='', explicit=False))
    for i in range(N // 25):         # long horizons, explicitly: only the terminal set binds
        S = dict(dyn.system(rng, 1, 1, False, k=1, den=2), A=[[F(1)]], B=[[rng.choice([F(1), F(-1), F(1, 2)])]])
        X = dict(n=1, C=[], d=[])
        X['A'], X['b'] = gen.box(1, [-F(rng.randint(2, 8), 8)], [F(rng.randint(2, 8), 8)])
        out.append(dict(sys=[dyn.sj(S)], doms=[pj(dict(n=2, A=[[F(1), F(0)], [F(-1), F(0)]], b=[F(rng.randint(4, 9)), F(rng.randint(4, 9))], C=[], d=[]))],
                        XN=pj(X), N=rng.choice([6, 9, 11, 11, 12]), Q=[[1 / rng.choice([64, 128, 256])]], R=[[1.]], P=[[1 / rng.choice([4, 8])]],
                        pts=fl([[gen.dy(rng, -8, 8, 8)] for _ in range(4)]), dirs=[], eq='', explicit=True))
    return out

def boundary_points(J, nx, dirs):
    """states just inside / outside the feasible set and half way, along directions"""
    from fractions import Fraction as F
    out = []
    s0 = exact.lp([F(0)] * J['n'], J['A'], J['b'], J['C'], J['d'])
    if s0.status != 'opt':
        return out
    for g in dirs:
        s = exact.lp([-v for v in g] + [F(0)] * (J['n'] - nx), J['A'], J['b'], J['C'], J['d'])
        if s.status != 'opt':
            continue
        x1, x0 = s.x[:nx], s0.x[:nx]
        gg = exact.dot(g, g)
        for e in (F(-1, 2), F(-1, 100), F(1, 200), F(1)):
            out.append([F(float(a + e * v / gg)) for a, v in zip(x1, g)])
        out.append([F(float((a + b) / 2)) for a, b in zip(x0, x1)])
    return out
def run(case, rec):
    ws = workspace(case)
    import numpy as np
    import ocp, mpqp
    from common import call, result, make, ev, fr
    from pympc.control.controllers import ModelPredictiveController as MPC
    N = case['N']
    o = ocp.exact_o(case, [1] * N)
    nx = o['sys'][0]['nx']
    J = ocp.joint(o)
    if case['eq'] and J['C'] and exact.rank([r[nx:] for r in J['C']], J['n'] - nx) < len(J['C']):
        pass            # some equalities bind the state alone: allowed, usually infeasible
    c = MPC(dyn.make_sys(case['sys'][0], True), N, arr(case['Q']), arr(case['R']), arr(case['P']),
            make(case['doms'][0]), make(case['XN']))
    expl = False
    if case['explicit']:
        m = mpqp.from_ocp(o)
        if mpqp.tame(m, **(dict(rows=40, inputs=12) if N > 4 else {})) is not None:
            expl = True
            rec.emit('refuse', kind='explicit-before-stored', r=result(call(c.feedforward_explicit, np.zeros(nx)), lambda v: {}))
            rec.emit('refuse', kind='explicit-feedback-before-stored', r=result(call(c.feedback_explicit, np.zeros(nx)), lambda v: {}))
            st = call(c.store_explicit_solution)
            if st[0] != 'ok':
                rec.emit('call', op='store-explicit', r=result(st, lambda v: {}))
                expl = False
    q = []
    pts = [fr(p) for p in case['pts']] + boundary_points(J, nx, [fr(g) for g in case['dirs']])
    for x in pts:
        try:
            s = ocp.solve(o, x)
        except RuntimeError:
            continue
        if s['margin'] is None and case['eq'] == '':
            continue
        if s['margin'] is not None:
            if s['u'] is None and s['margin'] > -F(1, 5000):
                continue        # infeasible by less than the tolerance of the solver
            if s['u'] is not None and 0 < s['margin'] < F(1, 10 ** 5):
                continue
        elif case['eq']:
            # contradictory equalities: by a clear amount only
            CC = [r[nx:] for r in J['C']]
            d = [v - exact.dot(r[:nx], x) for r, v in zip(J['C'], J['d'])]
            A = [r + [F(-1)] for r in CC] + [[-v for v in r] + [F(-1)] for r in CC]
            t = exact.lp([F(0)] * (J['n'] - nx) + [F(1)], A, d + [-v for v in d])
            if t.x[-1] < F(1, 1000):
                continue
        xa = lambda: ws(x)
        d = dict(x=ev(x), w=s['w'], impl=result(call(c.feedforward, xa()), ocp.ans), fb=result(call(c.feedback, xa()), ocp.fb))
        if expl:
            d['expl'] = result(call(c.feedforward_explicit, xa()), ocp.ans)
            d['fbe'] = result(call(c.feedback_explicit, xa()), ocp.fb)
        else:
            d['expl'] = dict(k='not-asked')
        q.append(d)
    if q:
        rec.emit('mpc', o=ocp.enc_o(o), q=q)
