"""Systems for the drivers: descriptors (floats) <-> real objects <-> encodings."""
from fractions import Fraction as F
import gen, exact
from gen import fl

def system(rng, nx, nu, affine=True, k=2, den=4, stable=False):
    A = [[gen.dy(rng, -k, k, den) for _ in range(nx)] for _ in range(nx)]
    if rng.random() < .25:      # singular / nilpotent-like structure
        i = rng.randrange(nx)
        A[i] = [F(0)] * nx
    if stable:
        s = max(sum(abs(v) for v in r) for r in A)
        while s >= 1:
            A = [[v / 2 for v in r] for r in A]
            s /= 2
    B = [[gen.dy(rng, -k, k, den) for _ in range(nu)] for _ in range(nx)]
    c = [gen.dy(rng, -k, k, den) if affine else F(0) for _ in range(nx)]
    return dict(nx=nx, nu=nu, A=A, B=B, c=c)
def sj(S):
    return dict(nx=S['nx'], nu=S['nu'], A=fl(S['A']), B=fl(S['B']), c=fl(S['c']))
def senc(S):
    from rat import em, ev
    return dict(nx=S['nx'], nu=S['nu'], A=em(S['A']), B=em(S['B']), c=ev(S['c']))
def sfr(S):
    from rat import fr
    return dict(nx=S['nx'], nu=S['nu'], A=fr(S['A']), B=fr(S['B']), c=fr(S['c']))
def step(S, x, u):
    return [a + b + c for a, b, c in zip(exact.matvec(S['A'], x), exact.matvec(S['B'], u), S['c'])]
def make_sys(S, linear, ints=False):
    import numpy as np
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    from record import arr, vec
    A, B, c = arr(S['A']), arr(S['B'], S['nu']), vec(S['c'])
    if ints:
        A, B, c = A.astype(int), B.astype(int), c.astype(int)
    return LinearSystem(A, B) if linear else AffineSystem(A, B, c)
def sys_fields(o):
    """recorded matrices of a system returned by the code"""
    import numpy as np
    from rat import rm, rv
    A, B = np.asarray(o.A, dtype=float), np.asarray(o.B, dtype=float)
    c = np.asarray(o.c, dtype=float) if hasattr(o, 'c') else np.zeros(A.shape[0])
    if A.ndim != 2 or B.ndim != 2 or c.ndim != 1:
        raise ValueError('shape of the system')
    return dict(S=dict(nx=A.shape[0], nu=B.shape[1], A=rm(A), B=rm(B), c=rv(c)))
def traj(x):
    import numpy as np
    from rat import rv
    out = []
    for v in x:
        a = np.asarray(v, dtype=float)
        if a.ndim != 1:
            raise ValueError('state is not a vector')
        out.append(rv(a))
    return out
