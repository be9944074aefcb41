"""P14: simulation and condensed prediction."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl
MODELS = []

def vec_(rng, n, ints=False):
    return [F(rng.randint(-4, 4)) if ints else gen.dy(rng, -4, 4, 8) for _ in range(n)]

def mixed(rng, nx, nu):
    S = dyn.system(rng, nx, nu, True)
    if rng.random() < .4:
        for k in rng.sample('ABc', rng.choice([1, 1, 2])):
            S[k] = dyn.system(rng, nx, nu, True, den=1)[k]
    return S
def cases(rng, tier):
    N = 1500 if tier == 'quick' else 8000
    out = []
    for i in range(N):
        nx, nu, T = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 4, 6, 8, 12])
        ints = rng.random() < .15
        lin = rng.random() < .45
        S = dyn.system(rng, nx, nu, not lin, den=1 if ints else 4)
        if rng.random() < .3:       # some of the data are integers
            for k in rng.sample('ABc', rng.choice([1, 1, 2])):
                R = dyn.system(rng, nx, nu, not lin, den=1)
                S[k] = R[k]
        reqs = []
        for j in range(rng.choice([1, 1, 2, 3])):       # the same object is asked several times
            if j and rng.random() < .5:
                T = rng.choice([1, 2, 3, 4, 6, 8, 12])
            T0 = rng.choice([0, T, T])
            reqs.append(dict(x0=fl(vec_(rng, nx, ints)), u=[fl(vec_(rng, nu, ints)) for _ in range(T0)],
                             K=fl([vec_(rng, nx, ints) for _ in range(nu)]), N=T))
        out.append(dict(k='one', lin=lin, ints=ints, S=dyn.sj(S), reqs=reqs))
        if i % 3 == 0:
            s = rng.choice([1, 2, 2, 3, 4])
            out.append(dict(k='pwa', sys=[dyn.sj(mixed(rng, nx, nu)) for _ in range(s)],
                            lin=[rng.random() < .2 for _ in range(s)], reqs=sequences(rng, s)))
    return out

def sequences(rng, s):
    """several sequences of modes, some of them alike"""
    out = [[rng.randrange(s) for _ in range(rng.choice([1, 2, 3, 5, 6]))]]
    while len(out) < 4 and rng.random() < .6:
        m = list(rng.choice(out))
        u = rng.random()
        if u < .4 and len(m) > 2:
            i = rng.randrange(1, len(m) - 1)
            m[i] = rng.randrange(s)
        elif u < .6:
            m[rng.randrange(len(m))] = rng.randrange(s)
        elif u < .8:
            rng.shuffle(m)
        else:
            m = [rng.randrange(s) for _ in range(rng.choice([1, 2, 3, 5, 6]))]
        out.append(m)
    return out

def run(case, rec):
    import numpy as np
    from common import call, result, vec, arr, ev, em, rm, rv
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    def cond(lin):
        def f(v):
            A, B = v[0], v[1]
            c = np.zeros(np.asarray(A).shape[0]) if lin else np.asarray(v[2], dtype=float)
            if c.ndim != 1 or len(v) != (2 if lin else 3):
                raise ValueError('offset')
            return dict(A=rm(np.asarray(A, dtype=float)), B=rm(np.asarray(B, dtype=float)), c=rv(c))
        return f
    if case['k'] == 'pwa':
        sys = case['sys']
        for S, l in zip(sys, case['lin']):
            if l:
                S['c'] = [0.0] * S['nx']
        obj = [dyn.make_sys(S, l) for S, l in zip(sys, case['lin'])]
        n = sys[0]['nx'] + sys[0]['nu']
        P = PieceWiseAffineSystem(obj, [Polyhedron.from_bounds(-np.ones(n), np.ones(n)) for _ in sys])
        for modes in case['reqs']:
            rec.emit('condense', sys=[dyn.senc(dyn.sfr(S)) for S in sys], modes=[m + 1 for m in modes],
                     r=result(call(P.condense, list(modes)), cond(False)))
        return
    S, ints = case['S'], case['ints']
    o = dyn.make_sys(S, case['lin'], ints)
    enc_ = dyn.senc(dyn.sfr(S))
    for q in case['reqs']:
        x0, u = vec(q['x0']), [vec(v) for v in q['u']]
        rec.emit('sim', op='open', S=enc_, x0=ev(q['x0']), u=[ev(v) for v in q['u']],
                 r=result(call(o.simulate, x0, u), lambda x: dict(x=dyn.traj(x))))
        rec.emit('condense', sys=[enc_], modes=[1] * q['N'], r=result(call(o.condense, q['N']), cond(case['lin'])))
        if case['lin']:
            rec.emit('sim', op='closed', S=enc_, x0=ev(q['x0']), N=q['N'], K=em(q['K']),
                     r=result(call(o.simulate_closed_loop, x0, q['N'], arr(q['K'])), lambda x: dict(x=dyn.traj(x))))
