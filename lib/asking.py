"""Things that can be asked repeatedly (P27).  Every kind gives: shape of the array the questions are about, make() -> fresh
objects, and a pool of questions (name, f(objects, array), exponent of the tolerance).  Only answers that are unique are compared."""
from fractions import Fraction as F
import numpy as np
import gen, dyn
from gen import fl

def A_(x):
    return np.array(x, dtype=float)
def rows(rng, n, lo, hi):
    """a box with a cut, rows in any order"""
    R = []
    for i in range(n):
        for s, v in ((1., hi), (-1., -lo)):
            R.append(([s * (j == i) for j in range(n)], v + rng.randint(-4, 4) / 16.))
    R.append(([rng.choice([-1., 1., .5]) for _ in range(n)], 1.5 * max(hi, -lo)))
    rng.shuffle(R)
    return [r for r, _ in R], [v for _, v in R]
def poly(D):
    from pympc.geometry.polyhedron import Polyhedron
    return Polyhedron(A_(D[0]), A_(D[1]))
def lin(rng, nx, nu):
    S = dyn.system(rng, nx, nu, True, k=1, den=2, stable=True)
    for i in range(nu):
        S['B'][i % nx][i] = F(1)
    return {k: (v if k in ('nx', 'nu') else fl(v)) for k, v in S.items()}
def spd(rng, n):
    return fl(gen.spd(rng, n, 1))

def pair(rng, new):
    """data of two objects: unrelated, or equal but for one ingredient"""
    a, b = new(), new()
    if rng.random() < .6:
        keys = list(a) if isinstance(a, dict) else range(len(a))
        size = lambda v: [len(r) if isinstance(r, (list, tuple)) else 0 for r in v] if isinstance(v, (list, tuple)) else 0
        j = rng.choice([k for k in keys if k not in ('nu', 'nx') and size(a[k]) == size(b[k])])
        c = dict(a) if isinstance(a, dict) else list(a)
        c[j] = b[j]
        b = c
    return [a, b]
def mpqp(rng):
    import p12
    nu, nx = rng.choice([1, 2]), rng.choice([1, 2, 3])
    def data():
        m = p12.mj(p12.program(rng, nu, nx, 2))
        for i in range(nu + nx):
            for sg in (1., -1.):
                r = [0.] * (nu + nx)
                r[i] = sg
                m['Au'].append(r[:nu])
                m['Ax'].append(r[nu:])
                m['b'].append(4. if i < nu else 2.)
        return m
    ms = pair(rng, data)
    label = lambda o, x: o[0].solve(x)['active_set']
    pool = []
    for k in (0, 1):
        def sol(o, x, k=k):
            s = o[k].solve(x)
            return [s['min'], s['argmin']]
        def reg(o, x, k=k):
            c = o[k].explicit_solve_given_point(x)
            return None if c is None else [c.u(x), c.V(x), sorted(c.active_set)]
        pool += [('program-solve', sol, 6), ('program-region', reg, 6)]
    return dict(shape=(nx,), make=lambda: [p12.build(m) for m in ms], pool=pool, k=2, label=label)
def explicit(rng):
    from p13 import wide
    import p12
    ms = [p12.mj(wide(rng)) for _ in range(2)]
    pool = []
    for k in (0, 1):
        pool += [('explicit-u', lambda o, x, k=k: o[k].u(x), 6), ('explicit-V', lambda o, x, k=k: o[k].V(x), 6), ('explicit-p', lambda o, x, k=k: o[k].p(x), 6)]
        def reg(o, x, k=k):
            c = o[k].get_critical_region(x)
            return None if c is None else sorted(c.active_set)
        pool.append(('explicit-region', reg, 6))
    return dict(shape=(2,), make=lambda: [p12.build(m).explicit_solve() for m in ms], pool=pool, k=2,
                label=lambda o, x: (lambda c: None if c is None else sorted(c.active_set))(o[0].get_critical_region(x)))
def mpc(rng):
    from pympc.control.controllers import ModelPredictiveController as MPC
    from pympc.dynamics.discrete_time_systems import LinearSystem
    nx = rng.choice([1, 2, 2])
    T = rng.choice([1, 2, 3])
    D = pair(rng, lambda: [lin(rng, nx, 1), spd(rng, nx), spd(rng, 1), spd(rng, nx), rows(rng, nx + 1, -3, 2.5), rows(rng, nx, -2, 2.25), rng.choice([T, T + 1])])
    ex = rng.random() < .5
    def make():
        out = []
        for S, Q, R, P, d, X, T in D:
            c = MPC(LinearSystem(A_(S['A']), A_(S['B'])), T, A_(Q), A_(R), A_(P), poly(d), poly(X))
            if ex:
                c.store_explicit_solution()
            out.append(c)
        return out
    pool = []
    for k in (0, 1):
        pool += [('mpc-feedforward', lambda o, x, k=k: list(o[k].feedforward(x)), 6), ('mpc-feedback', lambda o, x, k=k: o[k].feedback(x), 6)]
        if ex:
            pool += [('mpc-feedforward-explicit', lambda o, x, k=k: list(o[k].feedforward_explicit(x)), 6), ('mpc-feedback-explicit', lambda o, x, k=k: o[k].feedback_explicit(x), 6)]
    return dict(shape=(nx,), make=make, pool=pool, k=2, label=lambda o, x: o[0].mpqp.solve(x)['active_set'])
def pwa_data(rng, nx, nu=1, lap=0.):
    n = nx + nu
    cut = [v or 1. for v in fl(gen.row(rng, n, 1, 1))]
    out = []
    for sg in (1., -1.):
        A, b = rows(rng, n, -4., 4.)
        out.append((lin(rng, nx, nu), (A + [[sg * v for v in cut]], b + [sg / 64. + lap])))
    return out
def pwa_make(D):
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem, AffineSystem
    return PieceWiseAffineSystem([AffineSystem(A_(S['A']), A_(S['B']), A_(S['c'])) for S, _ in D], [poly(d) for _, d in D])
def hybrid(rng):
    from pympc.control.controllers import HybridModelPredictiveController as H
    nx = rng.choice([1, 2])
    T = rng.choice([1, 2])
    D = pair(rng, lambda: [pwa_data(rng, nx), spd(rng, nx), spd(rng, 1), spd(rng, nx), rows(rng, nx, -9, 9)])
    make = lambda: [H(pwa_make(d), T, A_(Q), A_(R), A_(P), poly(X)) for d, Q, R, P, X in D]
    pool = []
    for k in (0, 1):
        pool += [('hybrid-value', lambda o, x, k=k: o[k].feedforward(x)[3], 3), ('hybrid-program', lambda o, x, k=k: o[k].mpmiqp.solve(x)['min'], 3),
                 ('hybrid-modes', lambda o, x, k=k: (lambda s: [s['min'], s['argmin']])(o[k].get_mpqp([k] * T).solve(x)), 5)]
    return dict(shape=(nx,), make=make, pool=pool, k=2)
def linear(rng):
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    nx, nu = rng.choice([1, 2, 3]), 1
    D = pair(rng, lambda: lin(rng, nx, nu))
    us = [fl([gen.dy(rng, -2, 2, 4)]) for _ in range(3)]
    K = fl([[gen.dy(rng, -1, 1, 4) for _ in range(nx)]])
    make = lambda: [LinearSystem(A_(D[0]['A']), A_(D[0]['B'])), AffineSystem(A_(D[1]['A']), A_(D[1]['B']), A_(D[1]['c'])),
                    LinearSystem(A_(D[1]['A']), A_(D[1]['B'])), AffineSystem(A_(D[0]['A']), A_(D[0]['B']), A_(D[0]['c']))]
    pool = [('linear-simulate', lambda o, x: o[0].simulate(x, [A_(u) for u in us])[1:], 9), ('affine-simulate', lambda o, x: o[1].simulate(x, [A_(u) for u in us])[1:], 9),
            ('linear-closed-loop', lambda o, x: o[0].simulate_closed_loop(x, 3, A_(K))[1:], 9),
            ('linear-closed-loop-longer', lambda o, x: o[0].simulate_closed_loop(x, 5, A_(K))[1:], 9),
            ('affine-simulate-shorter', lambda o, x: o[1].simulate(x, [A_(us[0])])[1:], 9),
            ('linear-simulate', lambda o, x: o[2].simulate(x, [A_(u) for u in us])[1:], 9), ('affine-simulate', lambda o, x: o[3].simulate(x, [A_(u) for u in us])[1:], 9),
            ('linear-simulate', lambda o, x: o[0].simulate(x, [A_(u) for u in us[::-1]])[1:], 9), ('affine-simulate', lambda o, x: o[1].simulate(x, [A_(u) for u in us[::-1]])[1:], 9),
            ('linear-closed-loop', lambda o, x: o[2].simulate_closed_loop(x, 3, A_(K))[1:], 9), ('linear-closed-loop', lambda o, x: o[0].simulate_closed_loop(x, 3, -A_(K))[1:], 9),
            ('linear-condense', lambda o, x: list(o[0 if x[0] > 0 else 2].condense(1 + int(x[0] > 1))), 9),
            ('affine-condense', lambda o, x: list(o[1 if x[0] > 0 else 3].condense(1 + int(x[0] > 1))), 9),
            ('linear-inputs', lambda o, x: o[0].simulate(A_([.5] * nx), [x[:1], -x[:1], 2 * x[:1]])[1:], 9)]
    return dict(shape=(nx,), make=make, pool=pool, k=3)
def gains(rng):
    """closed loops: the array is the gain, or the weight"""
    from pympc.dynamics.discrete_time_systems import LinearSystem
    nx = rng.choice([1, 2])
    D = pair(rng, lambda: dict(lin(rng, nx, nx), B=(np.eye(nx) * rng.choice([1., 2., .5])).tolist()))
    make = lambda: [LinearSystem(A_(S['A']), A_(S['B'])) for S in D]
    pool = []
    for k in (0, 1):
        pool += [('dare-state-weight', lambda o, x, k=k: list(o[k].solve_dare(x.dot(x.T) + np.eye(nx), np.eye(nx))), 6),
                 ('dare-state-weight', lambda o, x, k=k: list(o[k].solve_dare(x.dot(x.T) + np.eye(nx), 2 * np.eye(nx))), 6),
                 ('dare-input-weight', lambda o, x, k=k: list(o[k].solve_dare(2 * np.eye(nx), x.dot(x.T) + np.eye(nx))), 6),
                 ('dare-input-weight', lambda o, x, k=k: list(o[k].solve_dare(np.eye(nx), x.dot(x.T) + np.eye(nx))), 6),
                 ('closed-loop-gain', lambda o, x, k=k: o[k].simulate_closed_loop(A_([.5] * nx), 3, x)[1:], 9)]
    return dict(shape=(nx, nx), make=make, pool=pool, k=2)
def weights(rng):
    """the array itself is the (symmetric) weight"""
    g = gains(rng)
    pool = []
    for k in (0, 1):
        n = g['shape'][0]
        pool += [('dare-own-state-weight', lambda o, x, k=k: list(o[k].solve_dare(x, np.eye(n))), 6), ('dare-own-input-weight', lambda o, x, k=k: list(o[k].solve_dare(np.eye(n), x)), 6)]
    return dict(g, pool=pool, sym=True)
def pwa(rng):
    nx = rng.choice([1, 2])
    lap = rng.choice([0., 0., .5, 1.])      # where domains overlap the mode is the one a fresh system names
    D = [pwa_data(rng, nx, lap=lap) for _ in range(2)]
    if rng.random() < .5:       # other dynamics or other domains only
        j = rng.randrange(2)
        D[1] = [tuple(a[i] if i == j else b[i] for i in (0, 1)) for a, b in zip(*D)]
    u = [fl([gen.dy(rng, -1, 1, 4)]) for _ in range(2)]
    make = lambda: [pwa_make(d) for d in D]
    pool = []
    for k in (0, 1):
        def sim(o, x, k=k):
            s = o[k].simulate(x, [A_(v) for v in u])
            return None if s is None else [s[0][1:], s[1]]
        pool += [('pwa-mode', lambda o, x, k=k: o[k].get_mode(x, A_(u[0])), 9), ('pwa-mode-other-input', lambda o, x, k=k: o[k].get_mode(x, A_(u[1])), 9), ('pwa-simulate', sim, 9),
                 ('pwa-condense', lambda o, x, k=k: list(o[k].condense([0, 1, int(x[0] > 0)])), 9),
                 ('pwa-condense', lambda o, x, k=k: list(o[k].condense([int(x[0] > 0), 1])), 9),
                 ('pwa-well-posed', lambda o, x, k=k: o[k].is_well_posed(tol=1e-7 if x[0] > 0 else 16.), 9)]
    return dict(shape=(nx,), make=make, pool=pool, k=3, label=lambda o, x: o[0].get_mode(x, A_(u[0])))
def program(rng):
    from pympc.optimization import programs as pr
    n = rng.choice([1, 2, 3])
    D = [rows(rng, n, -2, 2.5) for _ in range(2)]
    H = [spd(rng, n) for _ in range(2)]
    if rng.random() < .6:       # only the constraints, their right-hand sides or the cost differ
        j = rng.randrange(4)
        if j == 0:
            D[1] = D[0]
        elif j == 1:
            D[1] = (D[0][0], D[1][1])
        elif j == 2:
            D[1] = (D[1][0], D[0][1])
        if j:
            H[1] = H[0]
    sv = rng.choice(['pnnls', 'gurobi', 'both'])
    pool = []
    for s in (['pnnls', 'gurobi'] if sv == 'both' else [sv]):
        for k in (0, 1):
            pool += [('lp-cost', lambda o, x, k=k, s=s: pr.linear_program(x, A_(D[k][0]), A_(D[k][1]), solver=s)['min'], 6),
                     ('qp-cost', lambda o, x, k=k, s=s: (lambda r: [r['min'], r['argmin']])(pr.quadratic_program(A_(H[k]), x, A_(D[k][0]), A_(D[k][1]), solver=s)), 5),
                     ('qp-same-arrays', lambda o, x, k=k, s=s: (lambda r: [r['min'], r['argmin']])(pr.quadratic_program(o[k][0], x, o[k][1], o[k][2], solver=s)), 5),
                     ('lp-same-arrays', lambda o, x, k=k, s=s: pr.linear_program(x, o[k][1], o[k][2], solver=s)['min'], 6)]
    return dict(shape=(n,), make=lambda: [(A_(H[k]), A_(D[k][0]), A_(D[k][1])) for k in (0, 1)], pool=pool, k=3)
def bounds(rng):
    """the array is the right-hand side"""
    from pympc.optimization import programs as pr
    from pympc.geometry.polyhedron import Polyhedron
    n = rng.choice([1, 2])
    D = [rows(rng, n, -2, 2.5) for _ in range(2)]
    H = [spd(rng, n) for _ in range(2)]
    f = fl([gen.dy(rng, -2, 2, 4) for _ in range(n)])
    pool = []
    for k in (0, 1):
        pool += [('lp-bounds', lambda o, x, k=k: pr.linear_program(A_(f), A_(D[k][0]), x)['min'], 6),
                 ('qp-bounds', lambda o, x, k=k: (lambda r: [r['min'], r['argmin']])(pr.quadratic_program(A_(H[k]), A_(f), A_(D[k][0]), x)), 5),
                 ('polyhedron-facts', lambda o, x, k=k: (lambda p: [p.empty, p.bounded, p.radius])(Polyhedron(A_(D[k][0]), x)), 6)]
    return dict(shape=(2 * n + 1,), make=lambda: [], pool=pool, k=3)
def integer(rng):
    from pympc.optimization import programs as pr
    nc, nb = 1, rng.choice([1, 2])
    n = nc + nb
    D = [rows(rng, n, -2, 2.5) for _ in range(2)]
    H = [spd(rng, n) for _ in range(2)]
    pool = [('miqp-cost', lambda o, x, k=k: pr.mixed_integer_quadratic_program(nc, A_(H[k]), x, A_(D[k][0]), A_(D[k][1]))['min'], 3) for k in (0, 1)]
    return dict(shape=(n,), make=lambda: [], pool=pool, k=3)
def polyhedron(rng):
    n = rng.choice([1, 2, 3])
    D = [rows(rng, n, -2, 2.5) for _ in range(2)]
    pool = []
    for k in (0, 1):
        pool += [('polyhedron-contains', lambda o, x, k=k: o[k].contains(x), 9),
                 ('polyhedron-cut', lambda o, x, k=k: (lambda p: [p.empty, p.radius])(o[k].intersection(poly((x.reshape(1, -1), [1.])))), 6),
                 ('polyhedron-moved', lambda o, x, k=k: o[k].is_included_in(poly((D[k][0], [b + np.dot(a, x) for a, b in zip(*D[k])]))), 9)]
    return dict(shape=(n,), make=lambda: [poly(d) for d in D], pool=pool, k=3, label=lambda o, x: bool(o[0].contains(x)))
def discretization(rng):
    from pympc.dynamics.discretization_methods import zero_order_hold, explicit_euler
    from pympc.dynamics.discrete_time_systems import AffineSystem
    n = rng.choice([1, 2, 3])
    D = pair(rng, lambda: [fl([[gen.dy(rng, -2, 2, 4)] for _ in range(n)]), fl([gen.dy(rng, -2, 2, 4) for _ in range(n)]), rng.choice([.25, .125, .375])])
    fields = lambda s: [s.A, s.B, s.c]
    pool = []
    for B, c, h in D:
        k = (B, c, h)
        pool += [('zero-order-hold', lambda o, x, k=k: list(zero_order_hold(x, A_(k[0]), A_(k[1]), k[2])), 8), ('explicit-euler', lambda o, x, k=k: list(explicit_euler(x, A_(k[0]), A_(k[1]), k[2])), 9),
                 ('from-continuous', lambda o, x, k=k: fields(AffineSystem.from_continuous(x, A_(k[0]), A_(k[1]), k[2])), 8)]
    return dict(shape=(n, n), make=lambda: [], pool=pool, k=2)
def helpers(rng):
    from pympc.geometry.utils import nullspace_basis, linearly_independent_rows, plane_through_points
    n = rng.choice([2, 3])
    def proj(o, x):
        N = nullspace_basis(x[:n - 1])
        return N.dot(N.T)
    pool = [('nullspace', proj, 6), ('plane', lambda o, x: list(plane_through_points([r for r in x])), 6),
            ('independent-rows', lambda o, x: len(linearly_independent_rows(x[:, :n - 1])), 6)]
    return dict(shape=(n, n), make=lambda: [], pool=pool, k=3)
def invariant(rng):
    from pympc.dynamics.discrete_time_systems import mcais
    n = rng.choice([1, 2])
    D = rows(rng, n, -2, 2)
    pts = [[gen.dy(rng, -2, 2, 8) + F(1, 1000) for _ in range(n)] for _ in range(12)]
    def f(o, x):
        P = mcais(x / (4. * n * np.max(np.abs(x))), poly(D))
        return [P.radius] + [bool(P.contains(A_(fl(p)))) for p in pts]
    def g(o, x):
        P = mcais(-x / (4. * n * np.max(np.abs(x))), o[0])
        return [P.radius] + [bool(P.contains(A_(fl(p)))) for p in pts]
    return dict(shape=(n, n), make=lambda: [poly(D)], pool=[('invariant-set', f, 6), ('invariant-set-same-domain', g, 6)], k=2)

def partition(rng):
    """whole partitions and single regions of programs, asked again and again"""
    from p13 import wide
    import p12
    ms = []
    while len(ms) < 2:
        m = wide(rng)
        if m['nu'] == 2:
            ms.append(p12.mj(m))
    sets = [[], [0], [1]]
    pool = []
    for k in (0, 1):
        def regions(o, x, k=k):
            s = o[k].explicit_solve()
            return [len(s.critical_regions), sorted(sorted(c.active_set) for c in s.critical_regions), s.u(x), s.V(x)]
        def region(o, x, k=k):
            c = o[k].explicit_solve_given_active_set(list(sets[int(x[0] > 0) + int(x[1] > 0)]))
            return None if c is None else [c.u(x), c.V(x), c.p(x), bool(c.contains(x))]
        pool += [('partition-regions', regions, 6), ('partition-region', region, 6), ('partition-feasible-set', lambda o, x, k=k: (lambda p: [p.radius, bool(p.contains(x))])(o[k].get_feasible_set()), 6)]
    return dict(shape=(2,), make=lambda: [p12.build(m) for m in ms], pool=pool, k=2)

KINDS = dict(partition=partition, mpqp=mpqp, explicit=explicit, mpc=mpc, hybrid=hybrid, linear=linear, gains=gains, weights=weights, pwa=pwa, program=program, bounds=bounds,
             integer=integer, polyhedron=polyhedron, discretization=discretization, helpers=helpers, invariant=invariant)

def straddle(label, o, a, b, d):
    """two arrays at distance d with different labels, on the segment from a to b (None if the labels of its ends agree)"""
    la, lb = label(o, a.copy()), label(o, b.copy())
    if la == lb:
        return None
    while np.max(np.abs(a - b)) > d:
        m = (a + b) / 2
        l = label(o, m.copy())
        if l == la:
            a = m
        else:
            b, lb = m, l
    return a, b
def values(rng, shape, k, sym=False):
    """three arrays: the second and third almost equal, the first related to the second or not"""
    def one():
        a = np.array([rng.randint(-64 * k, 64 * k) / 64. + 1. / 1024 for _ in range(int(np.prod(shape)))]).reshape(shape)
        return a.dot(a.T) + np.eye(shape[0]) if sym else a
    v2 = one()
    if sym:
        return [one(), v2, v2 + np.eye(shape[0]) * rng.choice([2. ** -10, 2. ** -12])]
    how = rng.choice(['new', 'new', 'new', 'permuted', 'negated', 'one', 'far', 'zero'])
    v1 = one()
    if how == 'permuted' and v2.size > 1:
        v1 = np.roll(v2.reshape(-1), 1).reshape(shape)
    elif how == 'negated':
        v1 = -v2
    elif how == 'one' and v2.size > 1:
        v = v2.copy().reshape(-1)
        v[-1] = v1.reshape(-1)[-1]
        v1 = v.reshape(shape)
    elif how == 'far':
        v1 = v1 * 64.
    elif how == 'zero' and len(shape) == 1:
        v1 = np.zeros(shape)
    v3 = v2.copy().reshape(-1)
    d = rng.choice([2. ** -6, 2. ** -10, 2. ** -14])
    if rng.random() < .5:
        v3 += d
    else:
        v3[rng.randrange(v3.size)] += d
    return [v1, v2, v3.reshape(shape)]
def arrays(v):
    """the arrays an answer consists of"""
    if isinstance(v, np.ndarray):
        return [v] if v.dtype.kind == 'f' and v.flags.writeable and v.size else []
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays(x)]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x)]
    return []
