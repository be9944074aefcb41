"""P23: hybrid model predictive control."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import itertools
import gen, exact, dyn
from gen import fl, pj
from p15 import split
from p20 import terminal, weights
MODELS = [dict(module='Encoding.tla', cfg='MC_Encoding.cfg', args=('-workers', '4'))] + \
         [dict(module='Encoding.tla', cfg='MC_Encoding_bad_%s.cfg' % k, expect=e) for k, e in (('own', 'Complete'), ('capped', 'Complete'), ('modes', 'Sound'))]

def domains(rng, n, nx, k=F(1)):
    kind = rng.choice(['split', 'split', 'split', 'free', 'eq'])
    A, b = gen.box(n, [-k * F(rng.randint(4, 16), 4) for _ in range(n)], [k * F(rng.randint(4, 16), 4) for _ in range(n)])
    P = dict(n=n, A=A, b=b, C=[], d=[])
    if kind == 'free':          # overlapping or separate sets
        out = []
        for _ in range(rng.choice([2, 2, 3, 4, 5])):
            c = [k * gen.dy(rng, -2, 2, 2) for _ in range(n)]
            w = [k * F(rng.randint(2, 10), 4) for _ in range(n)]
            A, b = gen.box(n, [x - y for x, y in zip(c, w)], [x + y for x, y in zip(c, w)])
            out.append(dict(n=n, A=A, b=b, C=[], d=[]))
        return out
    D = split(rng, P, rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))
    if kind == 'eq' and len(D) > 1:
        r = [F(0)] * n
        r[rng.randrange(nx, n)] = F(1)
        D[0] = dict(D[0], C=[r], d=[k * F(rng.randint(-2, 2), 4)])
    return D
def model_cases(rng, tier, ctx):
    """the systems of Encoding.tla (scalar modes on intervals) under the real controller"""
    from hist import gen_histories
    H = gen_histories(ctx, 0, 'Gen_Encoding.cfg', simulate=False, module='Encoding.tla')
    H.sort(key=str)
    if tier == 'quick':
        H = rng.sample(H, 150)
    out = []
    for sys in H:
        Q, R, P = weights(rng, 1, 1)
        D = []
        for a, c, lo, hi in sys:
            A, b = gen.box(2, [F(lo), F(-1)], [F(hi), F(1)])
            D.append(dict(n=2, A=A, b=b, C=[], d=[]))
        A, b = gen.box(1, [F(-8)], [F(8)])
        out.append(dict(sys=[dyn.sj(dict(nx=1, nu=1, A=[[F(a)]], B=[[F(1)]], c=[F(c)])) for a, c, lo, hi in sys], doms=[pj(d) for d in D],
                        XN=pj(dict(n=1, A=A, b=b, C=[], d=[])), N=rng.choice([1, 1, 2, 3]), Q=fl(Q), R=fl(R), P=fl(P),
                        pts=[[float(v)] for v in rng.sample([-3, -2, -1, 0, 1, 2], 4)]))
    return out
def cases(rng, tier, ctx):
    N = 650 if tier == 'quick' else 1200
    out = []
    while len(out) < N:
        nx, nu = rng.choice([1, 1, 2, 2]), rng.choice([1, 1, 1, 2])
        k = rng.choice([F(1)] * 4 + [F(8), F(32)])
        D = domains(rng, nx + nu, nx, k)
        s = len(D)
        T = rng.choice([1, 2, 3] if s < 3 else [1, 2] if s == 3 else [1, 1, 1, 2])
        if any(exact.feas(d['A'], d['b'], d['C'], d['d'], nx + nu)[0] == 'farkas' for d in D):
            continue
        sys = [dyn.system(rng, nx, nu, rng.random() < .6, k=1, den=2) for _ in D]
        if rng.random() < .3:       # switching matters: same A, opposite offsets
            for S in sys[1:]:
                S['A'] = sys[0]['A']
        for S in sys:
            S['c'] = [v * k for v in S['c']]
        X = terminal(rng, nx, rng.random() < .1)
        X['b'] = [v * k for v in X['b']]
        u = rng.random()
        if u < .4:
            X = dict(n=nx, C=[], d=[])
            X['A'], X['b'] = gen.box(nx, [F(-16) * k] * nx, [F(16) * k] * nx)
        Q, R, P = weights(rng, nx, nu)
        out.append(dict(sys=[dyn.sj(S) for S in sys], doms=[pj(d) for d in D], XN=pj(X), N=T, Q=fl(Q), R=fl(R), P=fl(P),
                        pts=fl([[k * gen.dy(rng, -3, 3, 4) for _ in range(nx)] for _ in range(3)])))
    return out + model_cases(rng, tier, ctx)
def run(case, rec):
    ws = workspace(case)
    import numpy as np
    import ocp
    from common import call, result, make, ev, fr, enc, rnd, rv
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem
    from pympc.control.controllers import HybridModelPredictiveController
    N, s = case['N'], len(case['doms'])
    nx = case['sys'][0]['nx']
    S = PieceWiseAffineSystem([dyn.make_sys(x, False) for x in case['sys']], [make(D) for D in case['doms']])
    mk = call(lambda: HybridModelPredictiveController(S, N, *[arr(case[k]) for k in 'QRP'], make(case['XN'])))
    if mk[0] != 'ok':
        rec.emit('call', op='hybrid-controller', r=result(mk, lambda v: {}))
        return
    h = mk[1]
    for x in case['pts']:
        x = fr(x)
        w, skip = [], False
        for modes in itertools.product(range(1, s + 1), repeat=N):
            o = ocp.exact_o(case, list(modes))
            try:
                r = ocp.solve(o, x)
            except RuntimeError:
                skip = True
                break
            if r['u'] is None and (r['margin'] is None or r['margin'] > -F(1, 1000)):
                # infeasible by little, or through equalities: how much?
                if r['margin'] is not None or eq_gap(o, x) < F(1, 100):
                    skip = True
                    break
            w.append(dict(r['w'], modes=list(modes)))
        if skip:
            continue
        def fields(v):
            if all(a is None for a in v):
                return None
            u, xs, modes, V = v
            a = ocp.ans((u, V))
            X = []
            for q in xs:
                q = np.asarray(q, dtype=float)
                if q.ndim != 1:
                    raise ValueError('state is not a vector')
                X.append(rv(q))
            a.update(x=X, modes=[int(m) + 1 for m in modes])
            return a
        xa = lambda: ws(x)
        rec.emit('hybrid', o=ocp.enc_o(ocp.exact_o(case, [1] * N)), x=ev(x), N=N, w=w,
                 r=result(call(h.feedforward, xa()), fields), fb=result(call(h.feedback, xa()), ocp.fb))
def eq_gap(o, x):
    """smallest uniform violation of all the constraints"""
    import ocp
    _, _, _, A, b, C, d = ocp.condensed(o, x)
    rows = [r + [F(-1)] for r in A + C] + [[-v for v in r] + [F(-1)] for r in C]
    n = len(rows[0]) - 1
    return exact.lp([F(0)] * n + [F(1)], rows, list(b) + list(d) + [-v for v in d]).x[-1]
