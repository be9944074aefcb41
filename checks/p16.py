"""P16: discretisation."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact, dyn
from gen import fl
MODELS = []
HS = [F(0), F(1, 2 ** 20), F(1, 4096), F(1, 1024), F(1, 256), F(1, 64), F(1, 16), F(1, 8), F(1, 4), F(1, 2), F(1), F(2)]

def terms(S, h):
    """number of terms of the series for a remainder below 1e-13"""
    q = h * max((sum(abs(v) for v in r + b + [c]) for r, b, c in zip(S['A'], S['B'], S['c'])), default=F(0))
    k, r = 0, F(1)
    while 2 * q > k or 2 * r > F(1, 10 ** 13):
        k += 1
        r = r * q / k
    return k
def cont(rng, nx, nu, affine):
    S = dyn.system(rng, nx, nu, affine, k=2, den=2)
    u = rng.random()
    if u < .2:          # integrators: singular state matrix
        S['A'] = [[F(int(j == i + 1)) for j in range(nx)] for i in range(nx)]
    elif u < .3:
        S['A'] = [[F(0)] * nx for _ in range(nx)]
    elif u < .4 and nx >= 2:     # oscillator
        w = F(rng.randint(1, 4))
        S['A'] = [[F(0)] * nx for _ in range(nx)]
        S['A'][0][1], S['A'][1][0] = w, -w
    u = rng.random()
    if u < .15:         # other units: small inputs, offsets or rates
        k = rng.choice('ABc')
        s = F(1, 2 ** rng.choice([8, 14, 20]))
        S[k] = [v * s for v in S[k]] if k == 'c' else [[v * s for v in r] for r in S[k]]
    elif u < .25:       # numbers with many digits
        S['A'] = [[v + F(rng.randint(-2 ** 20, 2 ** 20), 2 ** 24) for v in r] for r in S['A']]
    return S

def cases(rng, tier):
    N = 2000 if tier == 'quick' else 6000
    out = []
    for i in range(N):
        nx, nu = rng.choice([1, 2, 2, 3, 4]), rng.choice([1, 1, 2])
        api = rng.choice(['linear', 'affine', 'affine', 'func'])
        S = cont(rng, nx, nu, api != 'linear')
        h = rng.choice(HS)
        while h * 10 * max(abs(v) for r in S['A'] for v in r) > 40:
            h /= 2
        out.append(dict(api=api, S=dyn.sj(S), h=float(h), method=rng.choice(['zero_order_hold', 'zero_order_hold', 'explicit_euler']),
                        default=rng.random() < .3, ints=False))
    return out

def run(case, rec):
    import numpy as np
    from common import call, result, enc
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from pympc.dynamics import discretization_methods as dm
    S, h, method = dyn.sfr(case['S']), F(case['h']), case['method']
    A, B, c = arr(case['S']['A']), arr(case['S']['B'], S['nu']), vec(case['S']['c'])
    if case['api'] == 'func':
        f = dm.zero_order_hold if method == 'zero_order_hold' else dm.explicit_euler
        res = call(f, A, B, c, case['h'])
        class T: pass
        def fields(v):
            o = T()
            o.A, o.B, o.c = v
            return dyn.sys_fields(o)
        r = result(res, fields)
    else:
        a = (A, B) if case['api'] == 'linear' else (A, B, c)
        C = LinearSystem if case['api'] == 'linear' else AffineSystem
        kw = {} if case['default'] and method == 'zero_order_hold' else dict(method=method)
        r = result(call(C.from_continuous, *a, h=case['h'], **kw), dyn.sys_fields)
    rec.emit('discretize', S=dyn.senc(S), h=enc(h), method=method, terms=terms(S, h) if method == 'zero_order_hold' else 0, r=r)
