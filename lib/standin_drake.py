"""A stand-in for pydrake (which is not installed here), just large enough to run pympc/optimization/solvers/drake.py:
programs are collected as affine and quadratic expressions and solved exactly, so that whatever the module gets wrong is
its own doing.  Anything the stand-in does not know raises Unknown, and the caller then skips the case."""
import sys, types, itertools
import numpy as np
from fractions import Fraction as F
import exact

class Unknown(Exception):
    pass

class Ex:
    """c + lin + quad over variable indices"""
    __array_priority__ = 1000
    def __init__(s, c=F(0), lin=None, quad=None):
        s.c, s.lin, s.quad = c, lin or {}, quad or {}
    @staticmethod
    def of(v):
        return v if isinstance(v, Ex) else Ex(F(float(v)))
    def __add__(s, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Ex.of(o)
        l, q = dict(s.lin), dict(s.quad)
        for k, v in o.lin.items():
            l[k] = l.get(k, F(0)) + v
        for k, v in o.quad.items():
            q[k] = q.get(k, F(0)) + v
        return Ex(s.c + o.c, l, q)
    __radd__ = __add__
    def __mul__(s, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Ex.of(o)
        if (s.quad and (o.lin or o.quad)) or (o.quad and s.lin):
            raise Unknown('degree')
        l, q = {}, {}
        for a, b in ((s, o), (o, s)):
            if b.c:
                for k, v in a.lin.items():
                    l[k] = l.get(k, F(0)) + v * b.c
                for k, v in a.quad.items():
                    q[k] = q.get(k, F(0)) + v * b.c
        for i, u in s.lin.items():
            for j, v in o.lin.items():
                k = (min(i, j), max(i, j))
                q[k] = q.get(k, F(0)) + u * v
        return Ex(s.c * o.c, l, q)
    __rmul__ = __mul__
    def __neg__(s):
        return s * -1.
    def __sub__(s, o):
        return s + Ex.of(o) * -1.
    def __rsub__(s, o):
        return Ex.of(o) - s
    def __truediv__(s, o):
        return s * Ex(1 / F(float(o)))
    def __le__(s, o):
        return ('le', s - o)
    def __ge__(s, o):
        return ('le', Ex.of(o) - s)
    def __eq__(s, o):
        return ('eq', s - o)
    __hash__ = None

class SolutionResult:
    kSolutionFound = 'found'
    kInfeasibleConstraints = 'infeasible'
    kUnbounded = 'unbounded'

class GurobiSolver:
    def solver_type(self):
        return 'gurobi'
    def __getattr__(self, n):
        raise Unknown(n)

class MathematicalProgram:
    def __init__(self):
        self.n, self.bins, self.cons, self.cost, self.sol = 0, [], [], Ex(), None
    def __getattr__(self, n):
        raise Unknown(n)
    def _new(self, k, *a):
        if not isinstance(k, (int, np.integer)) or any(not isinstance(x, str) for x in a):
            raise Unknown('NewVariables')
        r = np.empty(k, dtype=object)
        for i in range(k):
            r[i] = Ex(F(0), {self.n + i: F(1)})
        self.n += k
        return r
    def NewContinuousVariables(self, k, *a):
        return self._new(k, *a)
    def NewBinaryVariables(self, k, *a):
        self.bins += list(range(self.n, self.n + int(k)))
        return self._new(k, *a)
    def AddLinearConstraint(self, *a):
        if len(a) != 1 or not isinstance(a[0], tuple):
            raise Unknown('AddLinearConstraint')
        if a[0][1].quad:
            raise RuntimeError('constraint is not linear')
        self.cons.append(a[0])
    def AddLinearCost(self, *a):
        if len(a) != 1 or not isinstance(a[0], (Ex, float, int)):
            raise Unknown('AddLinearCost')
        e = Ex.of(a[0])
        if e.quad:
            raise RuntimeError('cost is not linear')
        self.cost = self.cost + e
    def AddQuadraticCost(self, *a):
        if len(a) != 1 or not isinstance(a[0], Ex):
            raise Unknown('AddQuadraticCost')
        self.cost = self.cost + a[0]
    def SetSolverOption(self, *a):
        pass
    def Solve(self):
        n = self.n
        A, b, C, d = [], [], [], []
        for k, e in self.cons:
            (A if k == 'le' else C).append([e.lin.get(j, F(0)) for j in range(n)])
            (b if k == 'le' else d).append(-e.c)
        f = [self.cost.lin.get(j, F(0)) for j in range(n)]
        H = [[self.cost.quad.get((min(i, j), max(i, j)), F(0)) * (2 if i == j else 1) for j in range(n)] for i in range(n)]
        co = [j for j in range(n) if j not in self.bins]
        best, status = None, None
        for dv in itertools.product([F(0), F(1)], repeat=len(self.bins)):
            fix = dict(zip(self.bins, dv))
            red = lambda M, v: ([[r[j] for j in co] for r in M], [x - sum(r[j] * t for j, t in fix.items()) for r, x in zip(M, v)])
            Ar, br = red(A, b)
            Cr, dr = red(C, d)
            fr = [f[i] + sum(H[i][j] * t for j, t in fix.items()) for i in co]
            Hr = [[H[i][j] for j in co] for i in co]
            if not self.cost.quad:
                s = exact.lp(fr, Ar, br, Cr, dr)
                st, x = s.status, (s.x if s.status == 'opt' else None)
            else:
                s = exact.qp(Hr, fr, Ar, br, Cr, dr)
                st, x = s[0], (s[1] if s[0] == 'opt' else None)
            if st == 'unb':
                status = SolutionResult.kUnbounded
                break
            if st != 'opt':
                continue
            full = [None] * n
            for i, j in enumerate(co):
                full[j] = x[i]
            for j, t in fix.items():
                full[j] = t
            v = sum(f[i] * full[i] for i in range(n)) + sum(H[i][j] * full[i] * full[j] for i in range(n) for j in range(n)) / 2
            if best is None or v < best[0]:
                best = (v, full)
        if status is None:
            status = SolutionResult.kSolutionFound if best else SolutionResult.kInfeasibleConstraints
        self.sol = best[1] if best and status == SolutionResult.kSolutionFound else None
        return status
    def GetSolution(self, x):
        if self.sol is None:
            return np.full(np.shape(x), np.nan)
        def one(e):
            if e.quad:
                raise Unknown('GetSolution')
            return float(e.c + sum(v * self.sol[k] for k, v in e.lin.items()))
        if isinstance(x, Ex):
            return one(x)
        return np.array([one(e) for e in np.ravel(x)]).reshape(np.shape(x))

def module():
    """pympc's drake module running on the stand-in (None if it cannot be loaded on it)"""
    if 'pydrake' not in sys.modules:
        names = {'pydrake': {}, 'pydrake.all': dict(MathematicalProgram=MathematicalProgram, SolutionResult=SolutionResult, GurobiSolver=GurobiSolver),
                 'pydrake.solvers': {}, 'pydrake.solvers.gurobi': dict(GurobiSolver=GurobiSolver),
                 'pydrake.solvers.mathematicalprogram': dict(MathematicalProgram=MathematicalProgram, SolutionResult=SolutionResult)}
        for k, v in names.items():
            m = types.ModuleType(k)
            m.__dict__.update(v)
            if k in ('pydrake', 'pydrake.solvers'):
                m.__path__ = []
            sys.modules[k] = m
    try:
        import pympc.optimization.solvers.drake as m
        return m
    except ImportError:
        return None

def unknown(res):
    return res[0] == 'exc' and isinstance(res[1], Unknown)

def regular(P, w):
    """no row is nearly tight at the exact optimum"""
    if w['k'] != 'opt':
        return True
    from rat import dec
    x = [dec(v) for v in w['x']]
    return not any(0 < v - exact.dot(r, x) < F(1, 10 ** 4) for r, v in zip(P['A'], P['b']))
