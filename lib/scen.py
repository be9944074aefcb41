"""Scenarios over all parts of the public interface.  scenario(kind, s) builds objects in the session s and returns
(ops, asks, bads): well-formed calls, questions whose answers must not change, requests that have to be refused."""
from fractions import Fraction as F
import numpy as np
import gen, exact, dyn
from gen import fl, pj

KINDS = ('polyhedra', 'programs', 'miqp', 'helpers', 'systems', 'discretize', 'invariant', 'pwa', 'mpqp', 'mpc', 'hybrid', 'plots')

def polyhedron(s, n, kind='bounded', neq=0, m=None):
    from pympc.geometry.polyhedron import Polyhedron
    P = gen.poly(s.rng, n, m or 2 * n + s.rng.randint(0, 2), kind, neq, k=2)
    a = [s.arr(fl(P['A'])), s.arr(fl(P['b']))]
    if P['C']:
        a += [s.arr(fl(P['C'])), s.arr(fl(P['d']))]
    return s.give(Polyhedron(*a))
def box(s, n, lo=-3, hi=3):
    from pympc.geometry.polyhedron import Polyhedron
    return s.give(Polyhedron.from_bounds(s.arr([lo] * n), s.arr([hi] * n)))
TINY = 2. ** -32
def rough(s, n, lo=-3, hi=3, eq=False, give=True):
    """the same box as a caller may have written it: rows of any length and order, repeated and redundant rows, negligible coefficients"""
    from pympc.geometry.polyhedron import Polyhedron
    rng = s.rng
    if give and rng.random() < .25:
        return box(s, n, lo, hi)
    rows = []
    for i in range(n):
        for sg, v in ((1., hi), (-1., -lo)):
            q = rng.choice([1., 2., .5, 4., .25, 3.])
            rows.append(([sg * q * (j == i) for j in range(n)], q * v))
    for _ in range(rng.choice([0, 1, 2])):
        rows.append(rng.choice(rows))
    if rng.random() < .5:
        rows.append(([1.] * n, n * hi + 2.))
    rng.shuffle(rows)
    if rng.random() < .4:
        r, v = rows[0]
        rows[0] = ([w if w else TINY for w in r], v)
    a = [s.arr([r for r, _ in rows]), s.arr([v for _, v in rows])]
    if eq:
        a += [s.arr([[2.] + [0.] * (n - 1)]), s.arr([0.])]
    return s.give(Polyhedron(*a)) if give else Polyhedron(*a)
def vec(s, n, k=2):
    return s.arr(fl([gen.dy(s.rng, -k, k, 4) for _ in range(n)]))
def mat(s, m, n, k=2):
    return s.arr(fl([[gen.dy(s.rng, -k, k, 4) for _ in range(n)] for _ in range(m)]))
def spd(s, n):
    return s.arr(fl(gen.spd(s.rng, n, 1)))
def linear(s, nx, nu, stable=True):
    from pympc.dynamics.discrete_time_systems import LinearSystem
    S = dyn.system(s.rng, nx, nu, False, k=1, den=2, stable=stable)
    for i in range(nu):
        S['B'][i % nx][i] = F(1)
    return s.give(LinearSystem(s.arr(fl(S['A'])), s.arr(fl(S['B']))))

def polyhedra(s):
    import copy
    from pympc.geometry.polyhedron import Polyhedron
    rng = s.rng
    n = rng.choice([2, 2, 3])
    P, Q = polyhedron(s, n), polyhedron(s, n)
    E = polyhedron(s, n, neq=1)
    U = polyhedron(s, n, 'cone', m=2)
    X = polyhedron(s, n, 'empty')
    L = [P, Q, E, U]
    pts = s.give([vec(s, n) for _ in range(n + 4)])
    derived = []
    def derive(op, f, *a):
        def g():
            r = s.do(op, f, *a)
            if r is not None:
                derived.append(r)
        return g
    def edit():
        if not derived:
            return
        p = rng.choice(derived)
        d = p.A.shape[1]
        k = rng.choice(['ineq', 'eq', 'bound', 'normalize', 'lower', 'upper'])
        if k == 'ineq':
            s.do('add_inequality', p.add_inequality, mat(s, 1, d), vec(s, 1), edits=[p])
        elif k == 'eq' and p.C.shape[0] == 0:
            s.do('add_equality', p.add_equality, mat(s, 1, d), vec(s, 1), edits=[p])
        elif k == 'bound':
            v = vec(s, d)
            s.do('add_bounds', p.add_bounds, v, s.give(v + 2), edits=[p])
        elif k == 'lower':
            s.do('add_lower_bound', p.add_lower_bound, vec(s, 1), s.give([rng.randrange(d)]), edits=[p])
        elif k == 'upper':
            s.do('add_upper_bound', p.add_upper_bound, vec(s, 1), s.give([rng.randrange(d)]), edits=[p])
        else:
            s.do('normalize', p.normalize, edits=[p])
    dims = lambda: s.give(rng.sample(range(n), rng.randint(1, n)))
    get = lambda p, a: (lambda: s.do(a, lambda: getattr(p, a), may_fail=True))
    ops = [derive('intersection', P.intersection, Q), derive('intersection', Q.intersection, E), derive('product', P.cartesian_product, U),
           derive('copy', copy.copy, P), derive('copy', copy.copy, E), derive('deepcopy', copy.deepcopy, Q),
           derive('project', lambda d: P.project_to(d), dims()), derive('project', lambda d: Q.project_to(d), dims()),
           derive('hull', Polyhedron.from_convex_hull, pts), edit, edit, edit, edit,
           lambda: s.do('included', P.is_included_in, Q), lambda: s.do('included', E.is_included_in, P), lambda: s.do('included', X.is_included_in, U),
           lambda: s.do('included', U.is_included_in, P), lambda: s.do('contains', P.contains, vec(s, n)), lambda: s.do('contains', E.contains, vec(s, n)),
           lambda: s.do('facets', P.minimal_facets), lambda: s.do('facets', U.minimal_facets)]
    ops += [get(p, a) for p in (P, Q, U, E, X) for a in ('empty', 'bounded')] + \
           [get(p, a) for p in (P, Q, E) for a in ('radius', 'center', 'vertices')]
    x = vec(s, n)
    asks = [('contains', lambda: P.contains(x)), ('included', lambda: P.is_included_in(Q)), ('empty', lambda: [p.empty for p in L + [X]]),
            ('bounded', lambda: [p.bounded for p in (P, Q, U)]), ('radius', lambda: P.radius), ('vertices', lambda: P.vertices),
            ('facets', lambda: P.minimal_facets()), ('data', lambda: [E.A, E.b, E.C, E.d])]
    import sympy as sp
    sx = sp.Matrix([sp.Symbol('s%d' % i) for i in range(n)])
    v, w = lambda k: vec(s, k), lambda a, b: mat(s, a, b)
    bads = []
    for p in (P, E, U):
        bads += [
            ('add-ineq-rows', lambda p=p: s.bad('add-ineq-rows', p.add_inequality, w(2, n), v(3))),
            ('add-ineq-rows', lambda p=p: s.bad('add-ineq-rows', p.add_inequality, w(2, n), v(1))),
            ('add-ineq-columns', lambda p=p: s.bad('add-ineq-columns', p.add_inequality, w(1, n + 1), v(1))),
            ('add-ineq-columns', lambda p=p: s.bad('add-ineq-columns', p.add_inequality, w(1, n), v(1), [0] * (n - 1))),
            ('add-eq-rows', lambda p=p: s.bad('add-eq-rows', p.add_equality, w(2, n), v(3))),
            ('add-eq-columns', lambda p=p: s.bad('add-eq-columns', p.add_equality, w(1, n + 1), v(1))),
            ('lower-size', lambda p=p: s.bad('lower-size', p.add_lower_bound, v(n + 1))),
            ('upper-size', lambda p=p: s.bad('upper-size', p.add_upper_bound, v(n + 1))),
            ('lower-size-indices', lambda p=p: s.bad('lower-size-indices', p.add_lower_bound, v(2), s.give([0]))),
            ('upper-size-indices', lambda p=p: s.bad('upper-size-indices', p.add_upper_bound, v(2), s.give([n - 1]))),
            ('bounds-size', lambda p=p: s.bad('bounds-size', p.add_bounds, v(n), v(n + 1))),
            ('bounds-size', lambda p=p: s.bad('bounds-size', p.add_bounds, v(1), v(2), s.give([0]))),
            ('bounds-size-indices', lambda p=p: s.bad('bounds-size-indices', p.add_bounds, v(2), v(2), s.give([0]))),
            ('project-equalities' if p is E else 'ok', lambda p=p: s.bad('project', p.project_to, s.give([0])) if p is not P else None),
            ('plot-dims', lambda p=p: s.bad('plot-dims', p.plot, s.give(list(range(n))[:1]))),
            ('plot-dims', lambda p=p: s.bad('plot-dims', p.plot, s.give([0, 1, 0]))),
        ]
    bads += [
        ('new-rows', lambda: s.bad('new-rows', Polyhedron, w(2, n), v(3))),
        ('new-rows', lambda: s.bad('new-rows', Polyhedron, w(2, n), v(1))),
        ('new-b-2d', lambda: s.bad('new-b-2d', Polyhedron, w(2, n), w(2, 1))),
        ('new-d-2d', lambda: s.bad('new-d-2d', Polyhedron, w(2, n), v(2), w(1, n), w(1, 1))),
        ('new-missing-d', lambda: s.bad('new-missing-d', Polyhedron, w(2, n), v(2), w(1, n))),
        ('new-missing-C', lambda: s.bad('new-missing-C', Polyhedron, w(2, n), v(2), None, v(1))),
        ('contains-size', lambda: s.bad('contains-size', P.contains, v(n + 1))),
        ('intersection-size', lambda: s.bad('intersection-size', P.intersection, box(s, n + 1))),
        ('included-size', lambda: s.bad('included-size', P.is_included_in, box(s, n + 1))),
        ('project-range', lambda: s.bad('project-range', P.project_to, s.give([n + 1]))) if P.bounded and not P.empty else ('ok', None),
        ('from-lower-indices', lambda: s.bad('from-lower-indices', Polyhedron.from_lower_bound, v(2), s.give([0]), 3)),
        ('from-upper-indices', lambda: s.bad('from-upper-indices', Polyhedron.from_upper_bound, v(1), s.give([0, 1]), 3)),
        ('from-bounds-indices', lambda: s.bad('from-bounds-indices', Polyhedron.from_bounds, v(2), v(2), s.give([1]), 3)),
        ('from-upper-range', lambda: s.bad('from-upper-range', Polyhedron.from_upper_bound, v(1), s.give([3]), 3)),
        ('new-eq-rows', lambda: s.bad('new-eq-rows', Polyhedron, w(2, n), v(2), w(1, n), v(2))),
        ('from-lower-no-n', lambda: s.bad('from-lower-no-n', Polyhedron.from_lower_bound, v(1), s.give([0]))),
        ('from-upper-no-n', lambda: s.bad('from-upper-no-n', Polyhedron.from_upper_bound, v(1), s.give([0]))),
        ('from-bounds-no-n', lambda: s.bad('from-bounds-no-n', Polyhedron.from_bounds, v(1), v(1), s.give([0]))),
        ('from-bounds-size', lambda: s.bad('from-bounds-size', Polyhedron.from_bounds, v(n), v(n + 1))),
        ('remove-empty', lambda: s.bad('remove-empty', X.remove_redundant_inequalities)),
        ('project-empty', lambda: s.bad('project-empty', X.project_to, s.give([0]))),
    ]
    return ops, asks, [b for b in bads if b[0] != 'ok']

def lp_data(s, n, m, feasible=True):
    P = gen.poly(s.rng, n, m, 'bounded' if feasible else 'empty', s.rng.choice([0, 0, 1]), k=2)
    a = [s.arr(fl(P['A'])), s.arr(fl(P['b']))]
    if P['C']:
        a += [s.arr(fl(P['C'])), s.arr(fl(P['d']))]
    if s.rng.random() < .4:             # a coefficient that solvers neglect
        M = np.array(a[0], dtype=float)
        M[s.rng.randrange(m), s.rng.randrange(n)] += TINY
        a[0] = s.give(M)
    return a
def programs(s):
    from pympc.optimization import programs as pr
    from pympc.optimization.solvers import pnnls, gurobi
    rng = s.rng
    n = rng.choice([1, 2, 3])
    D = [lp_data(s, n, 2 * n + 1), lp_data(s, n, 2 * n + 2), lp_data(s, n, 2 * n, False)]
    f = [vec(s, n), vec(s, n)]
    H = [spd(s, n), spd(s, n)]
    ops, asks = [], []
    for d in D:
        for sv in ('pnnls', 'gurobi'):
            ops.append(lambda d=d, sv=sv: s.do('lp-' + sv, pr.linear_program, rng.choice(f), *d, solver=sv))
            ops.append(lambda d=d, sv=sv: s.do('qp-' + sv, pr.quadratic_program, rng.choice(H), rng.choice(f), *d, solver=sv))
        asks.append(('qp', lambda d=d: pr.quadratic_program(H[0], f[0], *d)['argmin']))
        asks.append(('lp', lambda d=d: pr.linear_program(f[0], *d)['min']))
    ops.append(lambda: s.do('pnnls', pnnls.pnnls, mat(s, n + 1, n), mat(s, n + 1, 1), vec(s, n + 1)))
    ops.append(lambda: s.do('nnls', pnnls.pnnls, mat(s, n + 2, n), mat(s, n + 2, 2), vec(s, n + 2)))
    A, b = D[0][:2]
    C, d = mat(s, 1, n), vec(s, 1)
    bads = [('unknown-solver', lambda k=k: s.bad('unknown-solver', *k)) for k in (
        (pr.linear_program, f[0], A, b, None, None, 'simplex'), (pr.quadratic_program, H[0], f[0], A, b, None, None, 'PNNLS'),
        (pr.mixed_integer_quadratic_program, n, H[0], f[0], A, b, None, None, 'pnnls'))]
    for m in (pnnls, gurobi):
        bads += [('lp-missing-d', lambda m=m: s.bad('lp-missing-d', m.linear_program, f[0], A, b, C, None)),
                 ('lp-missing-C', lambda m=m: s.bad('lp-missing-C', m.linear_program, f[0], A, b, None, d)),
                 ('qp-missing-d', lambda m=m: s.bad('qp-missing-d', m.quadratic_program, H[0], f[0], A, b, C, None)),
                 ('qp-missing-C', lambda m=m: s.bad('qp-missing-C', m.quadratic_program, H[0], f[0], A, b, None, d))]
    bads += [('lp-missing-d', lambda: s.bad('lp-missing-d', pr.linear_program, f[0], A, b, C)),
             ('qp-missing-C', lambda: s.bad('qp-missing-C', pr.quadratic_program, H[0], f[0], A, b, None, d))]
    return ops, asks, bads
def miqp(s):
    from pympc.optimization import programs as pr
    from pympc.optimization.solvers import gurobi
    rng = s.rng
    nc, nb = rng.choice([1, 2]), rng.choice([1, 2])
    n = nc + nb
    D = [lp_data(s, n, 2 * n + 1) for _ in range(2)]
    f, H = vec(s, n), spd(s, n)
    ops = [lambda d=d: s.do('miqp', pr.mixed_integer_quadratic_program, nc, H, f, *d) for d in D] * 2
    asks = [('miqp', lambda d=d: pr.mixed_integer_quadratic_program(nc, H, f, *d)['min']) for d in D]
    A, b = D[0][:2]
    bads = [('unknown-miqp-solver', lambda: s.bad('unknown-miqp-solver', pr.mixed_integer_quadratic_program, nc, H, f, A, b, None, None, 'none')),
            ('miqp-missing-d', lambda: s.bad('miqp-missing-d', pr.mixed_integer_quadratic_program, nc, H, f, A, b, mat(s, 1, n))),
            ('miqp-missing-C', lambda: s.bad('miqp-missing-C', pr.mixed_integer_quadratic_program, nc, H, f, A, b, None, vec(s, 1)))]
    return ops, asks, bads
def helpers(s):
    from pympc.geometry import utils as gu
    n = s.rng.choice([2, 3])
    A, B = mat(s, 3, n), mat(s, 3, n)
    L = s.give([vec(s, n) for _ in range(n)])
    M = s.give([vec(s, n) for _ in range(n)])
    R = s.give([s.arr(fl(r)) for r in exact.eye(n)])
    ops = [lambda: s.do('nullspace', gu.nullspace_basis, A), lambda: s.do('indep', gu.linearly_independent_rows, B),
           lambda: s.do('same_rows', gu.same_rows, A, B), lambda: s.do('same_rows', gu.same_rows, A, A), lambda: s.do('same_rows', gu.same_rows, A, B, False),
           lambda: s.do('same_vectors', gu.same_vectors, L, M), lambda: s.do('same_vectors', gu.same_vectors, L, L),
           lambda: s.do('plane', gu.plane_through_points, R), lambda: s.do('same_rows', gu.same_rows, B, A)]
    asks = [('same_rows', lambda: gu.same_rows(A, B)), ('nullspace', lambda: gu.nullspace_basis(A).shape[1]), ('plane', lambda: gu.plane_through_points(R)[1])]
    bads = [('vectors-2d', lambda: s.bad('vectors-2d', gu.same_vectors, s.give([mat(s, 1, n)]), s.give([vec(s, n)]))),
            ('vectors-2d', lambda: s.bad('vectors-2d', gu.same_vectors, s.give([vec(s, n)]), s.give([mat(s, n, 1)])))]
    return ops, asks, bads
def systems(s):
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    rng = s.rng
    nx, nu = rng.choice([1, 2, 3]), rng.choice([1, 2])
    S = linear(s, nx, nu)
    A, B, c = mat(s, nx, nx), mat(s, nx, nu), vec(s, nx)
    T = s.give(AffineSystem(A, B, c))
    x = vec(s, nx)
    u = s.give([vec(s, nu) for _ in range(3)])
    K = mat(s, nu, nx)
    Q, R = spd(s, nx), spd(s, nu)
    ops = [lambda: s.do('simulate', S.simulate, x, u), lambda: s.do('simulate', T.simulate, x, u),
           lambda: s.do('closed-loop', S.simulate_closed_loop, x, 3, K), lambda: s.do('condense', S.condense, 3),
           lambda: s.do('condense', T.condense, 2), lambda: s.do('dare', S.solve_dare, Q, R, may_fail=True), lambda: s.do('controllable', lambda: S.controllable)]
    asks = [('simulate', lambda: S.simulate(x, u)), ('simulate-affine', lambda: T.simulate(x, u)), ('condense', lambda: S.condense(2)),
            ('matrices', lambda: [S.A, S.B, T.A, T.B, T.c])]
    sx = sp.Matrix(sp.symbols('x0:%d' % nx))
    su = sp.Matrix(sp.symbols('u0:%d' % nu))
    off = sp.Matrix([1] + [0] * (nx - 1))
    U = s.give(LinearSystem(s.arr(fl([[F(int(i == j)) * (i + 2) for j in range(nx)] for i in range(nx)])), s.arr([[0.] * nu for _ in range(nx)])))
    v, w = lambda k: vec(s, k), lambda a, b: mat(s, a, b)
    bads = [('A-square', lambda: s.bad('A-square', LinearSystem, w(nx, nx + 1), w(nx, nu))),
            ('A-square', lambda: s.bad('A-square', AffineSystem, w(nx + 1, nx), w(nx + 1, nu), v(nx + 1))),
            ('B-rows', lambda: s.bad('B-rows', LinearSystem, w(nx, nx), w(nx + 1, nu))),
            ('B-rows', lambda: s.bad('B-rows', AffineSystem, w(nx, nx), w(nx + 1, nu), v(nx))),
            ('c-size', lambda: s.bad('c-size', AffineSystem, w(nx, nx), w(nx, nu), v(nx + 1))),
            ('c-2d', lambda: s.bad('c-2d', AffineSystem, w(nx, nx), w(nx, nu), w(nx, 1))),
            ('simulate-state', lambda: s.bad('simulate-state', S.simulate, v(nx + 1), u)),
            ('simulate-input', lambda: s.bad('simulate-input', S.simulate, x, s.give([v(nu), v(nu + 1)]))),
            ('simulate-input', lambda: s.bad('simulate-input', T.simulate, x, s.give([v(nu + 1)]))),
            ('closed-loop-gain', lambda: s.bad('closed-loop-gain', S.simulate_closed_loop, x, 2, w(nu + 1, nx))),
            ('uncontrollable', lambda: s.bad('uncontrollable', U.solve_dare, Q, R)),
            ('offset', lambda: s.bad('offset', LinearSystem.from_symbolic, sx, su, sx + off)),
            ('offset-continuous', lambda: s.bad('offset-continuous', LinearSystem.from_symbolic_continuous, sx, su, sx + off, .1))]
    return ops, asks, bads
def discretize(s):
    import sympy as sp
    from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem
    rng = s.rng
    nx, nu = rng.choice([1, 2]), rng.choice([1, 2])
    A, B, c = mat(s, nx, nx), mat(s, nx, nu), vec(s, nx)
    sx = sp.Matrix(sp.symbols('x0:%d' % nx))
    su = sp.Matrix(sp.symbols('u0:%d' % nu))
    e = sp.Matrix([sum(sp.Integer(rng.randint(-2, 2)) * v for v in list(sx) + list(su)) for _ in range(nx)])
    off = sp.Matrix([sp.Rational(1, 2)] * nx)
    ops = []
    for m in ('zero_order_hold', 'explicit_euler'):
        ops += [lambda m=m: s.do('zoh', LinearSystem.from_continuous, A, B, .1, m), lambda m=m: s.do('zoh', AffineSystem.from_continuous, A, B, c, .1, m)]
    ops += [lambda: s.do('symbolic', LinearSystem.from_symbolic, sx, su, e), lambda: s.do('symbolic', AffineSystem.from_symbolic, sx, su, e + off),
            lambda: s.do('symbolic', AffineSystem.from_symbolic_continuous, sx, su, e + off, .1)]
    f = lambda S: [S.A, S.B]
    asks = [('zoh', lambda: f(LinearSystem.from_continuous(A, B, .1))), ('euler', lambda: f(AffineSystem.from_continuous(A, B, c, .1, 'explicit_euler')))]
    bads = [('method', lambda: s.bad('method', LinearSystem.from_continuous, A, B, .1, 'tustin')),
            ('method', lambda: s.bad('method', AffineSystem.from_continuous, A, B, c, .1, 'zoh')),
            ('negative-step', lambda: s.bad('negative-step', LinearSystem.from_continuous, A, B, -.1)),
            ('negative-step', lambda: s.bad('negative-step', LinearSystem.from_continuous, A, B, -.1, 'explicit_euler')),
            ('negative-step', lambda: s.bad('negative-step', AffineSystem.from_continuous, A, B, c, -.5)),
            ('negative-step', lambda: s.bad('negative-step', AffineSystem.from_continuous, A, B, c, -1, 'explicit_euler')),
            ('negative-step', lambda: s.bad('negative-step', AffineSystem.from_symbolic_continuous, sx, su, e + off, -1)),
            ('continuous-B-rows', lambda: s.bad('continuous-B-rows', LinearSystem.from_continuous, A, mat(s, nx + 1, nu), .1)),
            ('continuous-A-square', lambda: s.bad('continuous-A-square', LinearSystem.from_continuous, mat(s, nx, nx + 1), B, .1)),
            ('continuous-c-size', lambda: s.bad('continuous-c-size', AffineSystem.from_continuous, A, B, vec(s, nx + 1), .1)),
            ('symbolic-method', lambda: s.bad('symbolic-method', AffineSystem.from_symbolic_continuous, sx, su, e, .1, 'tustin')),
            ('symbolic-offset', lambda: s.bad('symbolic-offset', LinearSystem.from_symbolic, sx, su, e + off))]
    return ops, asks, bads
def invariant(s):
    from pympc.dynamics.discrete_time_systems import mcais, LinearSystem
    rng = s.rng
    n = rng.choice([1, 2])
    S = linear(s, n, 1)
    A = s.arr(S.A)
    X = rough(s, n, -rng.randint(1, 4), rng.randint(1, 4))
    D = rough(s, n + 1, -2, 3)
    K = s.arr([[0.] * n])
    derived = []
    def dv(f, *a):
        r = s.do('mcais', f, *a)
        if r is not None:
            derived.append(r)
    def edit():
        if derived:
            p = rng.choice(derived)
            s.do('edit', p.add_inequality, mat(s, 1, n), vec(s, 1), edits=[p]) if rng.random() < .5 else s.do('edit', p.normalize, edits=[p])
    ops = [lambda: dv(mcais, A, X), lambda: dv(S.mcais, K, D), edit, edit, lambda: dv(mcais, A, X)]
    asks = [('mcais', lambda: sorted(map(tuple, np.round(np.column_stack((mcais(A, X).A, mcais(A, X).b)), 6) + 0.)))]
    far = rough(s, n, 1, 3)
    half = s.give(type(X)(s.arr(fl(exact.eye(n))), s.arr([1.] * n)))
    big = s.arr(fl([[F(int(i == j)) * F(5, 4) for j in range(n)] for i in range(n)]))
    bads = [('mcais-unstable', lambda: s.bad('mcais-unstable', mcais, big, X)), ('mcais-origin', lambda: s.bad('mcais-origin', mcais, A, far)),
            ('mcais-unbounded', lambda: s.bad('mcais-unbounded', mcais, A, half))]
    return ops, asks, bads
def pwa_parts(s, nx, nu, k=2):
    from pympc.dynamics.discrete_time_systems import AffineSystem
    from pympc.geometry.polyhedron import Polyhedron
    rng = s.rng
    n = nx + nu
    cut = gen.row(rng, n, 1, 1)
    doms = []
    for sg in (1, -1):
        D = rough(s, n, -4., 4., give=False)
        D.add_inequality(s.arr(fl([[sg * v for v in cut]])), s.arr([0.]))
        doms.append(s.give(D))
    sys = []
    for _ in doms:
        S = dyn.system(rng, nx, nu, True, k=1, den=4, stable=True)
        sys.append(s.give(AffineSystem(s.arr(fl(S['A'])), s.arr(fl(S['B'])), s.arr(fl(S['c'])))))
    return s.give(sys), s.give(doms)
def pwa(s):
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem, LinearSystem, AffineSystem
    rng = s.rng
    nx, nu = rng.choice([1, 2]), 1
    sys, doms = pwa_parts(s, nx, nu)
    P = s.give(PieceWiseAffineSystem(sys, doms))
    mixed = s.give([s.give(LinearSystem(s.arr(sys[0].A), s.arr(sys[0].B))), sys[1]])
    x = s.arr([.25] * nx)
    u = s.give([s.arr([.5]), s.arr([-.25])])
    ops = [lambda: s.do('simulate', P.simulate, x, u), lambda: s.do('mode', P.get_mode, x, u[0]), lambda: s.do('mode', P.get_mode, vec(s, nx, 6), u[0]),
           lambda: s.do('well-posed', P.is_well_posed), lambda: s.do('condense', P.condense, s.give([0, 1, 1])),
           lambda: s.do('new-pwa', PieceWiseAffineSystem, sys, doms), lambda: s.do('new-pwa', PieceWiseAffineSystem, mixed, doms)]
    asks = [('simulate', lambda: P.simulate(x, u)), ('mode', lambda: P.get_mode(x, u[0])), ('well-posed', lambda: P.is_well_posed()), ('condense', lambda: P.condense([1, 0]))]
    far = s.arr([9.] * nx)
    other = s.give([sys[0], s.give(AffineSystem(mat(s, nx + 1, nx + 1), mat(s, nx + 1, nu), vec(s, nx + 1)))])
    other_u = s.give([sys[0], s.give(AffineSystem(mat(s, nx, nx), mat(s, nx, nu + 1), vec(s, nx)))])
    b1, b2 = box(s, nx + nu), box(s, nx + nu + 1)
    bads = [('pwa-number', lambda: s.bad('pwa-number', PieceWiseAffineSystem, sys, s.give(doms[:1]))),
            ('pwa-number', lambda: s.bad('pwa-number', PieceWiseAffineSystem, s.give(sys[:1]), doms)),
            ('pwa-states', lambda: s.bad('pwa-states', PieceWiseAffineSystem, other, doms)),
            ('pwa-inputs', lambda: s.bad('pwa-inputs', PieceWiseAffineSystem, other_u, doms)),
            ('pwa-domains', lambda: s.bad('pwa-domains', PieceWiseAffineSystem, sys, s.give([b1, b2]))),
            ('pwa-dimensions', lambda: s.bad('pwa-dimensions', PieceWiseAffineSystem, sys, s.give([b2, b2]))),
            ('pwa-outside', lambda: s.bad('pwa-outside', P.simulate, far, u)),
            ('pwa-outside-later', lambda: s.bad('pwa-outside-later', P.simulate, x, s.give([u[0], s.arr([7.])])))]
    return ops, asks, bads
def mpqp_(s):
    import p12, mpqp as M
    rng = s.rng
    nu, nx = rng.choice([1, 2]), rng.choice([1, 2])
    m = p12.mj(p12.program(rng, nu, nx, 2))
    for i in range(nu + nx):
        for sg in (1., -1.):
            r = [0.] * (nu + nx)
            r[i] = sg
            m['Au'].append(r[:nu])
            m['Ax'].append(r[nu:])
            m['b'].append(4. if i < nu else 2.)
    q = s.give(p12.build(m))
    # the caller's dictionaries and arrays
    for d in (q.H, q.f, q.A):
        s.give(d)
        for v in d.values():
            s.give(v)
    s.give(q.b)
    pts = [vec(s, nx) for _ in range(3)]
    sets = [s.give(rng.sample(range(len(m['b'])), rng.randint(0, nu))) for _ in range(4)]
    ops = [lambda: s.do('solve', q.solve, rng.choice(pts)) for _ in range(3)]
    ops += [lambda: s.do('region-point', q.explicit_solve_given_point, rng.choice(pts)), lambda: s.do('region-set', q.explicit_solve_given_active_set, s.give([0])),
            lambda: s.do('region-guess', q.explicit_solve_given_point, rng.choice(pts), rng.choice(sets)),
            lambda: s.do('region-set', q.explicit_solve_given_active_set, rng.choice(sets)), lambda: s.do('region-set', q.explicit_solve_given_active_set, rng.choice(sets)), lambda: s.do('feasible-set', q.get_feasible_set, may_fail=True)]
    tame = M.tame(p12.mfr(m))
    if tame is not None:
        st = []
        def expl():
            e = s.do('explicit', q.explicit_solve)
            if e is not None:
                st.append(e)
        def ask():
            if st:
                e = rng.choice(st)
                s.do('explicit-' + rng.choice('upV'), getattr(e, rng.choice('upV')), rng.choice(pts))
                s.do('explicit-region', e.get_critical_region, rng.choice(pts))
        ops += [expl, ask, ask, ask]
    asks = [('solve', lambda: [q.solve(x)['min'] for x in pts]), ('solve-argmin', lambda: [q.solve(x)['argmin'] for x in pts])]
    return ops, asks, []
def mpc(s):
    import matplotlib.pyplot as plt
    from pympc.control.controllers import ModelPredictiveController as MPC
    rng = s.rng
    nx = rng.choice([1, 2, 2])
    S = linear(s, nx, 1)
    Q, R, P = spd(s, nx), spd(s, 1), spd(s, nx)
    D = rough(s, nx + 1, -3, 2.5)
    X = rough(s, nx, -2, 2.25)
    N = rng.choice([1, 2])
    c = s.give(MPC(S, N, Q, R, P, D, X))
    pts = [vec(s, nx, 1) for _ in range(3)] + [vec(s, nx, 9)]
    pick = lambda: rng.choice(pts)
    ops = [lambda: s.do('feedforward', c.feedforward, pick()), lambda: s.do('feedback', c.feedback, pick()), lambda: s.do('feedforward', c.feedforward, pick()),
           lambda: s.do('new-mpc', MPC, S, N, Q, R, P, D, X), lambda: s.do('mpqp-solve', c.mpqp.solve, pick())]
    state = []
    def store():
        s.do('store', c.store_explicit_solution, may_fail=True)
        if c.explicit_solution is not None:
            state.append(1)
    def expl():
        if state:
            s.do('feedforward-explicit', c.feedforward_explicit, pick(), may_fail=True)
            s.do('feedback-explicit', c.feedback_explicit, pick(), may_fail=True)
    def part():
        if state and nx == 2:
            s.do('partition', lambda: c.plot_state_space_partition(), may_fail=True)
            s.do('value-function', lambda: c.plot_optimal_value_function(resolution=6), may_fail=True)
            plt.close('all')
    ops += [store, expl, expl, part]
    asks = [('feedforward', lambda: c.feedforward(pts[0])), ('feedback', lambda: c.feedback(pts[1]))]
    fresh = s.give(MPC(S, N, Q, R, P, D, X))
    bads = [('explicit-not-stored', lambda: s.bad('explicit-not-stored', fresh.feedforward_explicit, pts[0])),
            ('explicit-feedback-not-stored', lambda: s.bad('explicit-feedback-not-stored', fresh.feedback_explicit, pts[0])),
            ('partition-not-stored', lambda: s.bad('partition-not-stored', fresh.plot_state_space_partition)),
            ('mpc-domain', lambda: s.bad('mpc-domain', MPC, S, N, Q, R, P, box(s, nx + 2), X)),
            ('mpc-terminal', lambda: s.bad('mpc-terminal', MPC, S, N, Q, R, P, D, box(s, nx + 1))),
            ('mpc-weight', lambda: s.bad('mpc-weight', MPC, S, N, spd(s, nx + 1), R, P, D, X)),
            ('mpc-state', lambda: s.bad('mpc-state', c.feedforward, vec(s, nx + 1))),
            ('value-not-stored', lambda: s.bad('value-not-stored', fresh.plot_optimal_value_function))]
    if nx != 2:
        def late(k, f):
            def g():
                s.do('store', c.store_explicit_solution, may_fail=True)
                s.bad(k, f)
                plt.close('all')
            return g
        bads += [('partition-dim', late('partition-dim', c.plot_state_space_partition)), ('value-dim', late('value-dim', c.plot_optimal_value_function))]
    return ops, asks, bads
def hybrid(s):
    from pympc.dynamics.discrete_time_systems import PieceWiseAffineSystem
    from pympc.control.controllers import HybridModelPredictiveController as H, condense_optimal_control_problem
    rng = s.rng
    nx, nu = rng.choice([1, 2]), 1
    sys, doms = pwa_parts(s, nx, nu)
    S = s.give(PieceWiseAffineSystem(sys, doms))
    Q, R, P = spd(s, nx), spd(s, nu), spd(s, nx)
    X = rough(s, nx, -9, 9, eq=rng.random() < .2)
    c = s.give(H(S, 2, Q, R, P, X))
    pts = [vec(s, nx, 1) for _ in range(2)] + [vec(s, nx, 9)]
    pick = lambda: rng.choice(pts)
    modes = s.give([0, 1])
    st = []
    def get():
        m = s.do('mpqp', c.get_mpqp, modes)
        if m is not None:
            st.append(m)
    def sol():
        if st:
            s.do('mpqp-solve', rng.choice(st).solve, pick())
    ops = [lambda: s.do('feedforward', c.feedforward, pick()), lambda: s.do('feedback', c.feedback, pick()), get, sol, sol,
           lambda: s.do('condense', condense_optimal_control_problem, S, Q, R, P, X, modes), lambda: s.do('new-hybrid', H, S, 1, Q, R, P, X),
           lambda: s.do('mpmiqp-solve', c.mpmiqp.solve, pick())]
    asks = [('feedforward', lambda: [c.feedforward(pts[0])[i] for i in (0, 3)]), ('feedback', lambda: c.feedback(pts[0])), ('mode', lambda: S.get_mode(pts[0], np.zeros(1)))]
    bads = [('hybrid-terminal', lambda: s.bad('hybrid-terminal', H, S, 1, Q, R, P, box(s, nx + 1))),
            ('hybrid-weight', lambda: s.bad('hybrid-weight', H, S, 1, spd(s, nx + 1), R, P, X)),
            ('hybrid-state', lambda: s.bad('hybrid-state', c.feedforward, vec(s, nx + 1))),
            ('hybrid-modes', lambda: s.bad('hybrid-modes', c.get_mpqp, s.give([0, 2])))]
    return ops, asks, bads
def plots(s):
    import matplotlib.pyplot as plt
    from pympc import plot as pp
    rng = s.rng
    nx, nu = rng.choice([2, 3]), rng.choice([1, 2])
    T = 3
    x = s.give([vec(s, nx) for _ in range(T + 1)])
    u = s.give([vec(s, nu) for _ in range(T)])
    C = mat(s, 2, nx)
    xb, ub, yb = [s.give([s.arr([-3.] * k), s.arr([3.] * k)]) for k in (nx, nu, 2)]
    P = polyhedron(s, nx)
    def draw(op, f, *a, **k):
        def g():
            s.do(op, f, *a, **k)
            plt.close('all')
        return g
    dim = s.give([1, 0])
    ops = [draw('plot-trajectory', pp.plot_state_space_trajectory, x), draw('plot-trajectory', pp.plot_state_space_trajectory, x, dim, True),
           draw('plot-input', pp.plot_input_sequence, u, .5, ub), draw('plot-state', pp.plot_state_trajectory, x, .5, xb),
           draw('plot-output', pp.plot_output_trajectory, C, x, .5, yb), draw('plot-polyhedron', P.plot), draw('plot-polyhedron', P.plot, dim)]
    asks = [('contains', lambda: P.contains(x[0])), ('vertices', lambda: P.vertices)]
    bads = [('trajectory-dims', lambda: s.bad('trajectory-dims', pp.plot_state_space_trajectory, x, s.give([0]))),
            ('trajectory-dims', lambda: s.bad('trajectory-dims', pp.plot_state_space_trajectory, x, s.give([0, 1, 0])))]
    return ops, asks, bads
def scenario(kind, s):
    return {'polyhedra': polyhedra, 'programs': programs, 'miqp': miqp, 'helpers': helpers, 'systems': systems, 'discretize': discretize,
            'invariant': invariant, 'pwa': pwa, 'mpqp': mpqp_, 'mpc': mpc, 'hybrid': hybrid, 'plots': plots}[kind](s)
