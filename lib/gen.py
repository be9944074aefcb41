"""Random instances (numbers that are exactly representable: multiples of 1/64 and alike)."""
from fractions import Fraction as F
import exact

def dy(rng, lo, hi, den=4):
    return F(rng.randint(lo * den, hi * den), den)
def row(rng, n, k=3, den=1, nz=True):
    while True:
        r = [dy(rng, -k, k, den) for _ in range(n)]
        if not nz or any(r):
            return r
def fl(x):
    """Fractions -> floats (recursively); the numbers are dyadic so this is exact"""
    if isinstance(x, (list, tuple)):
        return [fl(v) for v in x]
    return float(x)
def noise(rng, bits=9):
    return F(rng.randint(-(1 << bits), 1 << bits), 1 << (bits + 4))

def spd(rng, n, k=2, den=2):
    """positive definite matrix with dyadic entries"""
    M = [[dy(rng, -k, k, den) for _ in range(n)] for _ in range(n)]
    H = exact.matmul(exact.transpose(M, n), M)
    s = rng.choice([F(1), F(1, 2), F(2)])
    return [[H[i][j] + (s if i == j else 0) for j in range(n)] for i in range(n)]
def psd(rng, n):
    r = rng.choice([0, 1, n])
    if r == 0:
        return [[F(0)] * n for _ in range(n)]
    M = [[dy(rng, -1, 1, 2) for _ in range(n)] for _ in range(r)]
    return exact.matmul(exact.transpose(M, n), M)

def box(n, lo, hi):
    I = exact.eye(n)
    A = I + [[-v for v in r] for r in I]
    b = list(hi) + [-v for v in lo]
    return A, b

def shuffle_rows(rng, A, b):
    p = list(range(len(A)))
    rng.shuffle(p)
    return [A[i] for i in p], [b[i] for i in p]

def poly(rng, n, m, kind, neq=0, k=3, den=1, scale=F(1)):
    """dict(n, A, b, C, d) of Fractions.  kind: 'bounded' (box + cuts around a random centre), 'cone' (feasible, random
    rows), 'any' (random rhs), 'empty' (contradictory rows), 'thin' (no interior)"""
    c = [dy(rng, -2, 2, 2) for _ in range(n)]
    A, b = [], []
    if kind == 'bounded':
        w = [F(rng.randint(2, 8), 2) for _ in range(n)]
        A, b = box(n, [a - x for a, x in zip(c, w)], [a + x for a, x in zip(c, w)])
        for _ in range(max(0, m - 2 * n)):
            r = row(rng, n, k, den)
            A.append(r)
            b.append(exact.dot(r, c) + F(rng.randint(1, 12), 4))
    elif kind in ('cone', 'any', 'thin', 'empty'):
        for _ in range(m):
            r = row(rng, n, k, den)
            A.append(r)
            b.append(exact.dot(r, c) + F(rng.randint(1, 12), 4) if kind in ('cone', 'thin', 'empty') else dy(rng, -3, 3, 2))
        if kind in ('thin', 'empty'):
            r = row(rng, n, k, den)
            v = exact.dot(r, c)
            gap = F(0) if kind == 'thin' else F(1, rng.choice([1, 4, 64, 1024]))
            A += [r, [-x for x in r]]
            b += [v, -v - gap]
    C, d = [], []
    while len(C) < neq:
        r = row(rng, n, k, den)
        if exact.rank(C + [r], n) == len(C) + 1:
            C.append(r)
            d.append(exact.dot(r, c))
    if A and rng.random() < .15:          # repeated (possibly rescaled) row
        i = rng.randrange(len(A))
        s = rng.choice([F(1), F(2), F(1, 2)])
        A.append([s * x for x in A[i]])
        b.append(s * b[i])
    if rng.random() < .07:
        A.append([F(0)] * n)
        b.append(rng.choice([F(0), F(1)]))
    A, b = shuffle_rows(rng, A, b)
    if scale != 1:
        b = [x * scale for x in b]
        d = [x * scale for x in d]
    return dict(n=n, A=A, b=b, C=C, d=d)

def pj(P):
    """case-descriptor form (floats)"""
    return dict(n=P['n'], A=fl(P['A']), b=fl(P['b']), C=fl(P['C']), d=fl(P['d']))

def units(rng, n, far=.25, size=.2, thin=.15, big=F(128)):
    """change of coordinates x -> s x + t"""
    s, t = [F(1)] * n, [F(0)] * n
    if rng.random() < size:
        s = [rng.choice([F(1, 16), F(1, 8), F(4), F(16)])] * n
    if n > 1 and rng.random() < thin:
        i = rng.randrange(n)
        s[i] *= rng.choice([F(1, 32), F(1, 8), F(8)])
    if rng.random() < far:
        t = [F(rng.randint(-int(big) * 4, int(big) * 4), 4) * rng.choice([0, 1, 1]) for _ in range(n)]
    return s, t
def moved(P, s, t):
    """the set in the new coordinates, each row rescaled to keep its largest coefficient"""
    def rows(M, v):
        out, rhs = [], []
        for r, b in zip(M, v):
            a = [x / y for x, y in zip(r, s)]
            m, m0 = max(map(abs, a), default=0), max(map(abs, r), default=0)
            q = F(1)
            while m and q * m > 2 * m0:
                q /= 2
            while m and q * m < m0 / 2:
                q *= 2
            out.append([q * x for x in a])
            rhs.append(q * (b + exact.dot(a, t)))
        return out, rhs
    A, b = rows(P['A'], P['b'])
    C, d = rows(P['C'], P['d'])
    return dict(n=P['n'], A=A, b=b, C=C, d=d)
def place(rng, P, *a, **k):
    return moved(P, *units(rng, P['n'], *a, **k))

def bend(rng, P, lo=9, hi=14):
    """a facet split in two by a slightly tilted copy of its row through a point of the facet (None: no such facet)"""
    n = P['n']
    V = exact.vertices(P['A'], P['b'], n=n)
    rows = [i for i, r in enumerate(P['A']) if any(r)]
    rng.shuffle(rows)
    for i in rows:
        a = P['A'][i]
        W = [v for v in V if exact.dot(a, v) == P['b'][i]]
        if len(W) < n:
            continue
        w = [F(rng.randint(1, 3)) for _ in W]
        x = [sum(k * v[j] for k, v in zip(w, W)) / sum(w) for j in range(n)]
        x = [F(round(v * 1024), 1024) for v in x]
        t = [v + F(rng.choice([-1, 1]), 1 << rng.randint(lo, hi)) * (rng.random() < .7) for v in a]
        if t == a:
            continue
        # keep the point within the old row
        s = exact.dot(a, x) - P['b'][i]
        v = exact.dot(t, x) - max(s, F(0))
        if v.denominator > 1 << 40:
            continue
        j = rng.randint(0, len(P['A']))
        return dict(P, A=P['A'][:j] + [t] + P['A'][j:], b=P['b'][:j] + [v] + P['b'][j:])
    return None
