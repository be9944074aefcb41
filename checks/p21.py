"""P21: the condensed program of a mode sequence against the optimal-control problem."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl, pj
from p19 import around_origin
from p20 import stage_set, terminal, weights, boundary_points
MODELS = []
BOX = F(50)

def pwa(rng, nx, nu, s, eq=False):
    """modes with affine dynamics and domains (overlapping or not: the fixed-mode problem does not care)"""
    sys = [dyn.system(rng, nx, nu, True, k=1, den=4) for _ in range(s)]
    doms = [stage_set(rng, nx, nu, eq and rng.random() < .5) for _ in range(s)]
    if s > 1 and rng.random() < .4:     # split the space
        r = gen.row(rng, nx + nu, 1, 1)
        c = F(rng.randint(-2, 2), 4)
        doms[0]['A'], doms[0]['b'] = doms[0]['A'] + [r], doms[0]['b'] + [c]
        doms[1]['A'], doms[1]['b'] = doms[1]['A'] + [[-v for v in r]], doms[1]['b'] + [-c]
    return sys, doms
def cases(rng, tier):
    N = 352 if tier == 'quick' else 3000
    out = []
    for i in range(N):
        nx, nu, s = rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2]), rng.choice([1, 2, 2, 3, 4])
        T = rng.choice([1, 2, 3, 3, 4] if nu == 1 else [1, 2, 2, 3])
        eq = rng.choice(['', '', '', 'D', 'X'])
        sys, doms = pwa(rng, nx, nu, s, eq == 'D')
        Q, R, P = weights(rng, nx, nu)
        out.append(dict(sys=[dyn.sj(S) for S in sys], doms=[pj(D) for D in doms], XN=pj(terminal(rng, nx, eq == 'X')),
                        modes=[rng.randint(1, s) for _ in range(T)], Q=fl(Q), R=fl(R), P=fl(P), eq=eq,
                        via=rng.choice(['condense', 'condense', 'hybrid']),
                        pts=fl([[gen.dy(rng, -2, 2, 8) for _ in range(nx)] for _ in range(4)]),
                        dirs=fl([gen.row(rng, nx, 2, 1) for _ in range(2)])))
        if rng.random() < .35:          # the same objects are asked for another sequence of modes
            m = list(out[-1]['modes'])
            m[rng.randrange(T)] = rng.randint(1, s)
            rng.shuffle(m)
            out[-1]['more'] = m
    return out
def program(v):
    import numpy as np
    from rat import rm, rv, enc, rnd
    two = lambda M: rm(_dim(M, 2))
    one = lambda M: rv(_dim(M, 1))
    return dict(m=dict(Huu=two(v.H['uu']), Hux=two(v.H['ux']), Hxx=two(v.H['xx']), fu=one(v.f['u']), fx=one(v.f['x']),
                       g=enc(rnd(v.g)), Au=two(v.A['u']), Ax=two(v.A['x']), b=one(v.b)))
def _dim(M, d):
    import numpy as np
    a = np.asarray(M, dtype=float)
    if a.ndim != d:
        raise ValueError('shape')
    return a
def run(case, rec):
    from common import call, make
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem
    from pympc.control.controllers import HybridModelPredictiveController, condense_optimal_control_problem
    import ocp
    S = PieceWiseAffineSystem([dyn.make_sys(s, False) for s in case['sys']], [make(D) for D in case['doms']])
    W = [arr(case[k]) for k in 'QRP']
    XN = make(case['XN'])
    h = None
    if case['via'] == 'hybrid' and bounded(ocp.exact_o(case, case['modes'])):
        # the mixed-integer part needs bounded, non-empty domains; only the fixed-mode program is asked for here
        h = call(lambda: HybridModelPredictiveController(S, len(case['modes']), W[0], W[1], W[2], XN))
        if h[0] != 'ok':
            return
    for modes in [case['modes']] + ([case['more']] if case.get('more') else []):
        modes0 = [m - 1 for m in modes]
        if h is not None:
            res = call(h[1].get_mpqp, modes0)
        else:
            res = call(condense_optimal_control_problem, S, W[0], W[1], W[2], XN, modes0)
        one(case, modes, res, rec, 4 if modes is case['modes'] else 2)
def one(case, modes, res, rec, npts):
    ws = workspace(case)
    import numpy as np
    import ocp
    from common import call, result, ev, fr, enc, rnd, same_set
    o = ocp.exact_o(case, modes)
    nx = o['sys'][0]['nx']
    r = result(res, program)
    J = ocp.joint(o)
    w = {}
    if r['k'] == 'ok':
        v = res[1]
        got = dict(n=J['n'], A=[[rnd(a) for a in np.concatenate((x, u))] for x, u in zip(v.A['x'], v.A['u'])],
                   b=[rnd(a) for a in v.b], C=[], d=[])
        w = same_set(got, J, BOX)
    rec.emit('condensed', o=ocp.enc_o(o), scale=enc(F(1)), box=enc(BOX), w=w, r=r)
    if res[0] != 'ok':
        return
    for x in [fr(p) for p in case['pts'][:npts]] + boundary_points(J, nx, [fr(g) for g in case['dirs']])[::2]:
        try:
            s = ocp.solve(o, x)
        except RuntimeError:
            continue
        if s['margin'] is None or (s['u'] is None and s['margin'] > -F(1, 5000)) or (s['u'] is not None and 0 < s['margin'] < F(1, 10 ** 5)):
            continue
        def ans(v):
            if v['min'] is None:
                return None
            nu = o['sys'][0]['nu']
            return ocp.ans(([v['argmin'][k:k + nu] for k in range(0, len(v['argmin']), nu)], v['min']))
        rec.emit('fixedmode', o=ocp.enc_o(o), x=ev(x), w=s['w'],
                 r=result(call(res[1].solve, ws(x)), ans))
def bounded(o):
    from common import bounded_wit
    for D in o['doms']:
        if bounded_wit(D)['k'] != 'bounded':
            return False
        if D['C']:
            return False
    return True
