"""Shared parts of the drivers (run in the worker, with pympc importable)."""
import numpy as np
from rat import enc, dec, ev, em, rv, rm, fr, rnd, NonFinite
from record import call, result, arr, vec
import exact

def pol_exact(P):
    """descriptor (floats) -> Fractions"""
    return dict(n=P['n'], A=fr(P['A']), b=fr(P['b']), C=fr(P['C']), d=fr(P['d']))
def pol_enc(P):
    return dict(n=P['n'], A=em(P['A']), b=ev(P['b']), C=em(P['C']), d=ev(P['d']))
def arrays(P):
    n = P['n']
    A, b = arr(P['A'], n), vec(P['b'])
    if P['C']:
        return A, b, arr(P['C'], n), vec(P['d'])
    return A, b, None, None

def lp_wit(f, P):
    """exact certificate for min f'x over P (Fractions)"""
    s = exact.lp(f, P['A'], P['b'], P['C'], P['d'])
    if s.status == 'opt':
        return dict(k='opt', x=ev(s.x), y=ev(s.y), z=ev(s.z))
    if s.status == 'inf':
        return dict(k='inf', y=ev(s.y), z=ev(s.z))
    return dict(k='unb', x=ev(s.x), ray=ev(s.ray))
def qp_wit(H, f, P):
    s = exact.qp(H, f, P['A'], P['b'], P['C'], P['d'])
    if s[0] == 'opt':
        return dict(k='opt', x=ev(s[1]), y=ev(s[2]), z=ev(s[3]))
    return dict(k='inf', y=ev(s[1]), z=ev(s[2]))
def feas_wit(P):
    s = exact.feas(P['A'], P['b'], P['C'], P['d'], P['n'])
    if s[0] == 'pt':
        return dict(k='pt', x=ev(s[1]))
    return dict(k='farkas', y=ev(s[1]), z=ev(s[2]))

def sol_fields(n_ineq):
    def f(s):
        present = [s[k] is not None for k in ('min', 'argmin', 'active_set', 'multiplier_inequality')]
        if not any(present) and s['multiplier_equality'] is None:
            return None
        if not all(present):
            raise ValueError('partly absent solution')
        z = s['multiplier_equality']
        y = np.asarray(s['multiplier_inequality'], dtype=float).reshape(-1)
        return dict(min=enc(rnd(s['min'])), argmin=rv(np.asarray(s['argmin']).reshape(-1)), y=rv(y),
                    act=[int(i) + 1 for i in s['active_set']],
                    hasz=z is not None, z=[] if z is None else rv(np.asarray(z).reshape(-1)))
    return f

# ---- certificates about sets -------------------------------------------------------------------------------------
F = exact.F
def clip(P, k):
    n = P['n']
    I = exact.eye(n)
    return dict(n=n, A=P['A'] + I + [[-v for v in r] for r in I], b=P['b'] + [F(k)] * (2 * n), C=P['C'], d=P['d'])
def row_cert(Q, a, beta):
    """certificate for a'x <= beta on Q (see RowCertOK)"""
    s = exact.lp([-v for v in a], Q['A'], Q['b'], Q['C'], Q['d'])
    if s.status == 'inf':
        return dict(k='farkas', y=ev(s.y), z=ev(s.z))
    if s.status == 'opt':
        if -s.val <= beta:
            return dict(k='dual', y=ev(s.y), z=ev(s.z))
        return dict(k='pt', x=ev(s.x))
    g = exact.dot(a, s.ray)
    k = max(F(1), (beta + 1 - exact.dot(a, s.x)) / g)
    return dict(k='pt', x=ev([u + k * v for u, v in zip(s.x, s.ray)]))
def rows_of(P):
    return list(zip(P['A'], P['b'])) + list(zip(P['C'], P['d'])) + \
        [([-v for v in r], -d) for r, d in zip(P['C'], P['d'])]
def row_tol(t, a, beta):
    return t * (1 + max([abs(v) for v in a], default=F(0)) + abs(beta))
def subset_certs(Q, P, t):
    """certificates that Q is inside P up to t"""
    return [row_cert(Q, a, b + row_tol(t, a, b)) for a, b in rows_of(P)]
def same_set(P, Q, k, t=F(1, 10 ** 6)):
    """P: from the code, Q: meant"""
    try:
        return dict(qp=subset_certs(clip(Q, k), P, t), pq=subset_certs(clip(P, k), Q, t))
    except Exception:
        return dict(qp=[], pq=[])
def poly_of(p):
    """constraints of a pympc polyhedron as exact numbers (kept exactly)"""
    n = p.A.shape[1]
    P = dict(n=n, A=fr(np.asarray(p.A, dtype=float)), b=fr(np.asarray(p.b, dtype=float).reshape(-1)),
             C=fr(np.asarray(p.C, dtype=float)), d=fr(np.asarray(p.d, dtype=float).reshape(-1)))
    return P
def finite(p):
    return all(np.all(np.isfinite(np.asarray(M, dtype=float))) for M in (p.A, p.b, p.C, p.d))
def rpoly_of(p, bits=44):
    """constraints rounded to 2^-bits (for results of floating-point computations)"""
    if not finite(p):
        raise NonFinite()
    rr = lambda v: [rnd(x, bits) for x in np.asarray(v, dtype=float).reshape(-1)]
    return dict(n=p.A.shape[1], A=[rr(r) for r in p.A], b=rr(p.b), C=[rr(r) for r in p.C], d=rr(p.d))
def bounded_wit(P):
    n = P['n']
    fe = exact.feas(P['A'], P['b'], P['C'], P['d'], n)
    if fe[0] == 'farkas':
        return dict(k='farkas', y=ev(fe[1]), z=ev(fe[2]))
    x = fe[1]
    c = []
    zero = [F(0)] * len(P['A'])
    for j in range(n):
        pair = []
        for sg in (1, -1):
            a = [F(0)] * n
            a[j] = F(sg)
            # max a r over the recession cone: 0 (then a is a combination of the rows) or unbounded (a ray)
            s = exact.lp([-v for v in a], P['A'], zero, P['C'], [F(0)] * len(P['C']))
            if s.status == 'unb':
                return dict(k='ray', x=ev(x), ray=ev(s.ray))
            pair.append(dict(y=ev(s.y), z=ev(s.z)))
        c.append(pair)
    return dict(k='bounded', x=ev(x), c=c)
def deepest(P, cap=F(1000)):
    """point of P with the largest uniform slack (None if there is none with positive slack)"""
    n = P['n']
    rows = [(r, v) for r, v in zip(P['A'], P['b']) if any(r)]
    z = [F(0)] * n
    s = exact.lp(z + [F(-1)], [r + [F(1)] for r, _ in rows] + [z + [F(1)]], [v for _, v in rows] + [cap],
                 [r + [F(0)] for r in P['C']], P['d'])
    if s.status != 'opt' or s.val >= 0:
        return None, None
    return s.x[:n], -s.val
def bool_res(v):
    if not isinstance(v, (bool, np.bool_)):
        raise ValueError('not a boolean')
    return dict(v=bool(v))
def make(P, ints=False):
    """pympc polyhedron from a descriptor"""
    from pympc.geometry.polyhedron import Polyhedron
    A, b, C, d = arrays(P)
    return Polyhedron(A, b) if C is None else Polyhedron(A, b, C, d)
