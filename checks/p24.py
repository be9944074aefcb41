"""P24: linear-algebra helpers."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact
from gen import fl
MODELS = []

def lowrank(rng, m, n):
    r = rng.randint(0, min(m, n))
    U = [[F(rng.randint(-2, 2)) for _ in range(r)] for _ in range(m)]
    V = [[F(rng.randint(-2, 2)) for _ in range(n)] for _ in range(r)]
    if r == 0:
        return [[F(0)] * n for _ in range(m)]
    M = exact.matmul(U, V)
    s = rng.choice([F(1), F(1), F(1, 4), F(8)])
    return [[s * v for v in row] for row in M]
def cases(rng, tier):
    N = 5000 if tier == 'quick' else 15000
    out = []
    for i in range(N):
        op = rng.choice(['nullspace', 'indep', 'plane', 'same', 'same', 'vectors'])
        if op in ('nullspace', 'indep'):
            m, n = rng.randint(0 if op == 'nullspace' and rng.random() < .3 else 1, 5), rng.randint(1, 5)
            M = lowrank(rng, m, n) if rng.random() < .7 else [[gen.dy(rng, -3, 3, 2) for _ in range(n)] for _ in range(m)]
            if rng.random() < .2 and m > 1:
                M[rng.randrange(m)] = list(M[rng.randrange(m)])
            if rng.random() < .15 and m > 1:        # almost dependent rows
                i, j = rng.sample(range(m), 2)
                M[i] = list(M[j])
                M[i][rng.randrange(n)] += F(rng.choice([-1, 1]), 2 ** rng.choice([6, 10, 12]))
            if op == 'nullspace' and rng.random() < .2:     # other units
                k = rng.choice([F(2) ** 20, F(1, 2 ** 12), F(1, 2 ** 24), F(1, 2 ** 30)])
                M = [[k * v for v in r] for r in M]
            out.append(dict(op=op, n=n, M=fl(M)))
        elif op == 'plane':
            n = rng.choice([1, 2, 2, 3, 3, 4])
            while True:
                p = [[gen.dy(rng, -3, 3, 2) for _ in range(n)] for _ in range(n)]
                if rng.random() < .3 and n > 1:        # plane through the origin
                    if rng.random() < .5:
                        p[0] = [F(0)] * n
                    else:
                        p[0] = [a + b for a, b in zip(p[0], [F(0)] * n)]
                        a = gen.row(rng, n, 2, 1)
                        nn = exact.dot(a, a)
                        p = [[v - exact.dot(a, x) / nn * w for v, w in zip(x, a)] for x in p]
                        if any(v.denominator & (v.denominator - 1) for x in p for v in x):
                            continue
                if n == 1 or exact.rank([[a - b for a, b in zip(x, p[0])] for x in p[1:]], n) == n - 1:
                    break
            if rng.random() < .35:      # close to the origin, or far from it
                k = rng.choice([F(1, 8), F(1, 64), F(1, 512), F(1, 4096), F(16), F(64)])
                t = [k * F(rng.randint(-3, 3), 2) for _ in range(n)]
                p = [[v + w for v, w in zip(x, t)] for x in p]
            out.append(dict(op=op, p=fl(p)))
        else:
            n, m = rng.randint(1, 4), rng.randint(1, 5)
            norm = op == 'same' and rng.random() < .6
            A = [gen.row(rng, n, 2, 1, nz=norm) for _ in range(m)]
            if rng.random() < .4 and m > 1:
                A[0] = list(A[1])
            B = [list(r) for r in A]
            rng.shuffle(B)
            if norm:
                B = [[rng.choice([F(1), F(2), F(1, 2), F(3)]) * v for v in r] for r in B]
            u = rng.random()
            if u < .12:
                k = rng.randrange(len(B))
                B[k] = [-v for v in B[k]]
            elif u < .25:
                B[rng.randrange(len(B))] = list(rng.choice(B))
            elif u < .37:
                k = rng.randrange(len(B))
                t = F(rng.choice([-1, 1]), rng.choice([8, 8, 256, 1024, 2048]))
                i = rng.randrange(n)
                B[k] = [v + t * int(j == i) for j, v in enumerate(B[k])]
                if norm and not any(B[k]):
                    continue
            elif u < .45:
                B = B[:-1] or B
            elif u < .53:
                B = B + [list(rng.choice(B))]
            elif u < .6:
                B = [[2 * v for v in r] for r in B]
            out.append(dict(op=op, A=fl(A), B=fl(B), normalize=norm))
    return out

def run(case, rec):
    import numpy as np
    from common import call, result, em, enc, rnd, rv, rm, bool_res, arr
    from pympc.geometry import utils as gu
    op = case['op']
    if op == 'nullspace':
        A = arr(case['M'], case['n'])
        def f(Z):
            Z = np.asarray(Z, dtype=float)
            if Z.ndim != 2:
                raise ValueError('shape')
            return dict(Z=rm(Z))
        rec.emit('helper', op=op, M=em(case['M']), n=case['n'], r=result(call(gu.nullspace_basis, A), f))
    elif op == 'indep':
        rec.emit('helper', op=op, M=em(case['M']), n=case['n'],
                 r=result(call(gu.linearly_independent_rows, arr(case['M'], case['n'])), lambda v: dict(v=[int(i) + 1 for i in v])))
    elif op == 'plane':
        def g(v):
            a = np.asarray(v[0], dtype=float)
            if a.ndim != 1:
                raise ValueError('shape')
            return dict(a=rv(a), b=enc(rnd(v[1])))
        rec.emit('helper', op=op, p=em(case['p']), r=result(call(gu.plane_through_points, [vec(x) for x in case['p']]), g))
    elif op == 'same':
        A, B = arr(case['A']), arr(case['B'])
        res = call(gu.same_rows, A, B) if case['normalize'] else call(gu.same_rows, A, B, normalize=False)
        rec.emit('helper', op='same', A=em(case['A']), B=em(case['B']), normalize=case['normalize'], r=result(res, bool_res))
    else:
        A, B = [vec(r) for r in case['A']], [vec(r) for r in case['B']]
        rec.emit('helper', op='same', A=em(case['A']), B=em(case['B']), normalize=False, r=result(call(gu.same_vectors, A, B), bool_res))
