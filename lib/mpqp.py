"""Exact critical regions of a parametric quadratic program (used to choose problems and parameters; not trusted)."""
from fractions import Fraction as F
import math
import exact
from exact import dot, matvec, tvec, matmul, transpose

# m: dict(nu, nx, Huu, Hux, Hxx, fu, fx, g, Au, Ax, b)
def from_ocp(o):
    import ocp
    nx = o['sys'][0]['nx']
    H, f0, off0, A0, b0, C0, _ = ocp.condensed(o, [F(0)] * nx)
    assert not C0
    nu = len(f0)
    J = ocp.joint(o)
    fs, offs, off2 = [], [], {}
    unit = lambda *k: [F(sum(int(i == j) for j in k)) for i in range(nx)]
    for k in range(nx):
        _, f, off, *_ = ocp.condensed(o, unit(k))
        fs.append(f)
        offs.append(off)
    Hux = [[fs[k][i] - f0[i] for k in range(nx)] for i in range(nu)]
    # offset: off(x) = 1/2 x'Hxx x + fx x + g
    neg = [ocp.condensed(o, [-v for v in unit(k)])[2] for k in range(nx)]
    fx = [(offs[k] - neg[k]) / 2 for k in range(nx)]
    Hxx = [[None] * nx for _ in range(nx)]
    for i in range(nx):
        Hxx[i][i] = offs[i] + neg[i] - 2 * off0
    for i in range(nx):
        for j in range(i):
            v = ocp.condensed(o, unit(i, j))[2]
            Hxx[i][j] = Hxx[j][i] = v - off0 - fx[i] - fx[j] - Hxx[i][i] / 2 - Hxx[j][j] / 2
    return dict(nu=nu, nx=nx, Huu=H, Hux=Hux, Hxx=Hxx, fu=f0, fx=fx, g=off0, Au=[r[nx:] for r in J['A']],
                Ax=[r[:nx] for r in J['A']], b=J['b'])
def at(m, x):
    """QP data at the parameter x"""
    f = [a + b for a, b in zip(matvec(m['Hux'], x), m['fu'])]
    b = [a - c for a, c in zip(m['b'], matvec(m['Ax'], x))]
    off = dot(x, matvec(m['Hxx'], x)) / 2 + dot(m['fx'], x) + m['g']
    return m['Huu'], f, m['Au'], b, off
def solve(m, x):
    """('opt', u, y, V) or ('inf', y)"""
    H, f, A, b, off = at(m, x)
    s = exact.qp(H, f, A, b)
    return ('inf', s[1]) if s[0] == 'inf' else ('opt', s[1], s[2], s[4] + off)
def laws(m, act):
    """affine laws for the active set: rows [coefficients | constant] of u and of the active multipliers, or None"""
    nu, nx, k = m['nu'], m['nx'], len(act)
    Aa = [m['Au'][i] for i in act]
    if k > nu or exact.rank(Aa, nu) < k:
        return None
    M = [list(m['Huu'][i]) + [Aa[j][i] for j in range(k)] for i in range(nu)] + [list(r) + [F(0)] * k for r in Aa]
    rhs = [[-v for v in m['Hux'][i]] + [-m['fu'][i]] for i in range(nu)] + [[-v for v in m['Ax'][i]] + [m['b'][i]] for i in act]
    R, piv = exact.rref([list(a) + list(b) for a, b in zip(M, rhs)], nu + k)
    if len(piv) < nu + k:
        return None
    sol = [r[nu + k:] for r in R]
    return sol[:nu], sol[nu:]
def region(m, act):
    """(rows, rhs) over x: active multipliers >= 0 first, then inactive rows"""
    L = laws(m, act)
    if L is None:
        return None
    u, p = L
    nx = m['nx']
    rows = [[-v for v in r[:nx]] for r in p]
    rhs = [r[nx] for r in p]
    for i in range(len(m['b'])):
        if i not in act:
            c = tvec(u, m['Au'][i], nx + 1)
            rows.append([a + b for a, b in zip(m['Ax'][i], c[:nx])])
            rhs.append(m['b'][i] - c[nx])
    return dict(act=list(act), u=u, p=p, A=rows, b=rhs)
def norm(r):
    return F(math.sqrt(float(dot(r, r)))).limit_denominator(1 << 20) if any(r) else F(0)
def depth(A, b, nx, C=(), d=(), cap=F(1000)):
    """Chebyshev-like centre: (point, radius) of {A x <= b, C x = d}"""
    rows = [(r, v, norm(r)) for r, v in zip(A, b) if any(r)]
    z = [F(0)] * nx
    s = exact.lp(z + [F(-1)], [r + [q] for r, _, q in rows] + [z + [F(1)]], [v for _, v, _ in rows] + [cap],
                 [list(r) + [F(0)] for r in C], list(d))
    if s.status != 'opt':
        return None, None
    return s.x[:nx], -s.val
def irredundant(A, b):
    """indices of the rows that are needed (exact)"""
    keep = list(range(len(A)))
    for i in list(keep):
        rest = [k for k in keep if k != i]
        s = exact.lp([-v for v in A[i]], [A[k] for k in rest] + [A[i]], [b[k] for k in rest] + [b[i] + 1])
        if s.status == 'opt' and -s.val <= b[i]:
            keep = rest
        elif s.status == 'inf':
            keep = rest
    return keep
def start(m):
    nx, n = m['nx'], m['nx'] + m['nu']
    x, r = depth([a + b for a, b in zip(m['Ax'], m['Au'])], m['b'], n, cap=F(2))
    return None if x is None or r <= F(1, 100) else x[:nx]
def tame(m, limit=25, eps=F(1, 10 ** 5), small=F(1, 100), rows=16, inputs=4):
    """all critical regions when the program is non-degenerate and facet-to-facet with margins, else None"""
    nx = m['nx']
    x = start(m)
    if x is None or len(m['b']) > rows or m['nu'] > inputs or nx > 2:
        return None
    try:
        return _tame(m, x, limit, eps, small)
    except RuntimeError:
        return None
def _region_at(m, x, small):
    s = solve(m, x)
    if s[0] == 'inf':
        return 'inf'
    act = [i for i, v in enumerate(s[2]) if v > 0]
    R = region(m, act)
    if R is None:
        return None
    for r, v in zip(R['A'], R['b']):
        if not any(r) and v <= F(1, 1000):
            return None             # row that is tight all over the region
        if any(r) and abs(v) > 500 * norm(r):
            return None             # very far: out of the numerical domain of the LP solver
    c, rad = depth(R['A'], R['b'], m['nx'])
    if c is None or rad < small:
        return None
    R['center'], R['radius'] = c, rad
    return R
def _tame(m, x, limit, eps, small):
    nx = m['nx']
    R = _region_at(m, x, small)
    if R is None:           # the starting point may lie on a boundary: move a little
        R = _region_at(m, [v + F(7 + 3 * k, 1000) for k, v in enumerate(x)], small)
    if R is None or R == 'inf':
        return None
    found = {tuple(R['act']): R}
    todo = [R]
    while todo:
        R = todo.pop()
        k = len(R['act'])
        for i in irredundant(R['A'], R['b']):
            a, v = R['A'][i], R['b'][i]
            q = norm(a)
            # slope of the multiplier that appears / vanishes across the facet
            if q < F(1, 20):
                return None
            rest = [j for j in range(len(R['A'])) if j != i]
            if nx == 1:
                fc, fr_ = [v / a[0]], small
            else:
                fc, fr_ = depth([R['A'][j] for j in rest], [R['b'][j] for j in rest], nx, [a], [v], cap=F(100))
                # distance measured in the plane of the facet is at least this
            if fc is None or fr_ < small:
                return None
            y = [c + eps * w / q for c, w in zip(fc, a)]
            Rn = _region_at(m, y, small)
            if Rn == 'inf':
                # infeasible beyond the facet: by a clear amount
                y2 = [c + F(1, 100) * w / q for c, w in zip(fc, a)]
                _, f, A, b, _ = at(m, y2)
                import ocp
                mg = ocp.margin(A, b, [], [], m['nu'])
                if mg > -F(1, 2000):
                    return None
                continue
            if Rn is None:
                return None
            # a multiplier is positive beyond the facet, clearly
            if len(Rn['act']) > k:
                new = [j for j in Rn['act'] if j not in R['act']]
                sl = [abs(dot(Rn['p'][Rn['act'].index(j)][:nx], a)) / q for j in new]
                if any(s < F(1, 20) for s in sl):
                    return None
            # the whole facet belongs to the neighbour
            for r, w in zip(Rn['A'], Rn['b']):
                if not any(r):
                    continue
                s = exact.lp([-t for t in r], [R['A'][j] for j in rest], [R['b'][j] for j in rest], [a], [v])
                if s.status != 'opt' or -s.val > w + F(1, 10 ** 12):
                    return None
            t = tuple(Rn['act'])
            if t not in found:
                found[t] = Rn
                todo.append(Rn)
                if len(found) > limit:
                    return None
    return list(found.values())
