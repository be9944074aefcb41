"""P13: explicit solutions cover the feasible parameters, regions do not overlap, feasible set."""
from record import arr, vec, typed, workspace
from fractions import Fraction as F
import gen, exact
from gen import fl
import p12, p20
from p12 import program, mj, menc, mfr, build, region_fields, safe_certs, BOX
MODELS = [dict(module='Exploration.tla', cfg='MC_Exploration.cfg', args=('-workers', '4'))] + \
         [dict(module='Exploration.tla', cfg='MC_Exploration_bad_%s.cfg' % k, expect=e)
          for k, e in (('start', 'Covers'), ('stop', 'Covers'), ('discard', 'Once'), ('guess', 'Once'))]

def bounded_program(rng, nu, nx):
    """generic program with a box on some of the variables"""
    m = program(rng, nu, nx, rng.randint(1, 4), k=2, den=4)
    n = nu + nx
    lo = [-F(rng.randint(8, 40), 8) for _ in range(n)]
    up = [F(rng.randint(8, 40), 8) for _ in range(n)]
    A, b = gen.box(n, lo, up)
    keep = [i for i in range(2 * n) if i % n < nu or rng.random() < .8]
    if rng.random() < .3:
        keep = [i for i in keep if rng.random() < .7]
    for i in keep:
        m['Au'].append(A[i][:nu])
        m['Ax'].append(A[i][nu:])
        m['b'].append(b[i])
    if rng.random() < .25:      # feasible set away from the origin
        s = [gen.dy(rng, -6, 6, 4) for _ in range(nx)]
        m['b'] = [v + exact.dot(r, s) for r, v in zip(m['Ax'], m['b'])]
    return m
def wide(rng):
    """many regions: bounded inputs that depend on two parameters each in its own direction"""
    nu = rng.choice([2, 3, 3, 4, 4])
    Huu = [[F(rng.choice([1, 2, 4])) if i == j else F(0) for j in range(nu)] for i in range(nu)]
    if rng.random() < .5:
        for i in range(nu):
            for j in range(i):
                Huu[i][j] = Huu[j][i] = gen.dy(rng, -1, 1, 8) / 4
    Au, Ax, b = [], [], []
    for i in range(nu):
        for s in (1, -1):
            Au.append([F(s * (j == i)) for j in range(nu)])
            Ax.append([F(0)] * 2)
            b.append(F(rng.randint(2, 12), 8))
    for r, v in zip(*gen.box(2, [-F(rng.randint(12, 24), 8) for _ in range(2)], [F(rng.randint(12, 24), 8) for _ in range(2)])):
        Au.append([F(0)] * nu)
        Ax.append(r)
        b.append(v)
    p = list(range(len(b)))
    rng.shuffle(p)
    return dict(nu=nu, nx=2, Huu=Huu, Hux=[gen.row(rng, 2, 2, 4) for _ in range(nu)], Hxx=gen.spd(rng, 2, 1),
                fu=[gen.dy(rng, -1, 1, 8) for _ in range(nu)], fx=[gen.dy(rng, -1, 1, 8) for _ in range(2)], g=gen.dy(rng, -1, 1, 8),
                Au=[Au[i] for i in p], Ax=[Ax[i] for i in p], b=[b[i] for i in p])
def shift(m, s):
    """the same program with the parameters measured from s"""
    d = exact.dot
    return dict(m, fu=[a + d(r, s) for a, r in zip(m['fu'], m['Hux'])], fx=[a + d(r, s) for a, r in zip(m['fx'], m['Hxx'])],
                g=m['g'] + d(m['fx'], s) + d(s, exact.matvec(m['Hxx'], s)) / 2, b=[a - d(r, s) for a, r in zip(m['b'], m['Ax'])])
def at_a_facet(rng, m):
    """the origin of the parameters is moved to the centre of a facet"""
    import mpqp
    regs = mpqp.tame(m)
    if regs is None or len(regs) < 2:
        return m
    R = rng.choice(regs)
    i = rng.choice(mpqp.irredundant(R['A'], R['b']))
    rest = [j for j in range(len(R['A'])) if j != i]
    if m['nx'] == 1:
        c = [R['b'][i] / R['A'][i][0]]
    else:
        c, _ = mpqp.depth([R['A'][j] for j in rest], [R['b'][j] for j in rest], m['nx'], [R['A'][i]], [R['b'][i]], cap=F(100))
    return shift(m, c) if c is not None else m
def cases(rng, tier):
    N = 390 if tier == 'quick' else 3000
    out = []
    for i in range(N):
        seed = rng.randrange(1 << 30)
        if i % 4 == 3:
            out.append(dict(kind='mpc', o=p20.small(rng), seed=seed))
        elif i % 4 == 2:
            # feasible sets only: degenerate programs are allowed here
            nu, nx = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)])
            m = bounded_program(rng, nu, nx)
            if rng.random() < .3:
                j = rng.randrange(len(m['b']))
                for k in ('Au', 'Ax', 'b'):
                    m[k].append(m[k][j])
            if rng.random() < .12:
                j = rng.randrange(len(m['b']))
                m['Au'].append([-v for v in m['Au'][j]])
                m['Ax'].append([-v for v in m['Ax'][j]])
                m['b'].append(-m['b'][j] - 1)
            out.append(dict(kind='set', m=mj(m), seed=seed))
        else:
            nu, nx = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (2, 2), (3, 1), (3, 2)])
            m = wide(rng) if i % 12 in (0, 5) else bounded_program(rng, nu, nx)
            if rng.random() < .2:
                m = at_a_facet(rng, m)
            out.append(dict(kind='prog', m=mj(m), seed=seed))
    return out

# ---- certificates ------------------------------------------------------------------------------------------------
def joint(m):
    return dict(n=m['nx'] + m['nu'], A=[a + b for a, b in zip(m['Ax'], m['Au'])], b=m['b'], C=[], d=[])
def inside(P, x, t):
    return all(exact.dot(a, x) <= b + t for a, b in zip(P['A'], P['b']))
def cover(m, regs, box=BOX):
    from common import row_cert, clip, row_tol, ev, enc
    T6 = F(1, 10 ** 6)
    J = joint(m)
    nx = m['nx']
    out = []
    for k, P in enumerate(regs):
        cs = []
        gone = set()
        for i in range(len(P['A'])):
            a, b = P['A'][i], P['b'][i]
            tol = row_tol(T6, a, b)
            rest = [j for j in range(len(P['A'])) if j != i and j not in gone]
            Q = clip(dict(n=nx, A=[P['A'][j] for j in rest], b=[P['b'][j] for j in rest], C=[], d=[]), box)
            s = exact.lp([-v for v in a], Q['A'], Q['b'])
            if s.status == 'inf' or (s.status == 'opt' and -s.val <= b + tol):
                # multipliers over all the rows but i (zero on the rows dropped before)
                y = dict(zip(rest, s.y))
                full = [y.get(j, F(0)) for j in range(len(P['A'])) if j != i] + list(s.y[len(rest):])
                gone.add(i)
                cs.append(dict(k='redundant', w=dict(k='farkas' if s.status == 'inf' else 'dual', y=ev(full), z=[])))
                continue
            w = row_cert(J, list(a) + [F(0)] * m['nu'], b + tol)
            if w['k'] == 'dual':
                cs.append(dict(k='boundary', w=w))
                continue
            Fc = clip(dict(n=nx, A=P['A'], b=P['b'], C=[a], d=[b]), box)
            w = row_cert(Fc, a, F(0))
            if w['k'] == 'farkas':
                cs.append(dict(k='outside', w=w))
                continue
            c = shared(regs, k, i, Fc, T6)
            if c is None:
                c = hole(m, regs, P, i, Fc, J)
            cs.append(c or dict(k='unknown'))
        out.append(cs)
    return out
def shared(regs, k, i, Fc, T6):
    from common import row_cert, row_tol, enc
    a, b = regs[k]['A'][i], regs[k]['b'][i]
    p = max(range(len(a)), key=lambda j: abs(a[j]))
    for j, Q in enumerate(regs):
        if j == k:
            continue
        for l, (c, d) in enumerate(zip(Q['A'], Q['b'])):
            if not any(c):
                continue
            s = -c[p] / a[p]
            if s <= 0:
                continue
            if any(abs(cv + s * av) > T6 * (1 + max(abs(t) for t in c)) for cv, av in zip(c, a)) or abs(d + s * b) > T6 * (1 + abs(d)):
                continue
            w = [row_cert(Fc, r, v + row_tol(T6, r, v)) for r, v in zip(Q['A'], Q['b'])]
            if all(x['k'] != 'pt' for x in w):
                return dict(k='shared', j=j + 1, i=l + 1, s=enc(s), w=w)
    return None
def hole(m, regs, P, i, Fc, J):
    """a feasible parameter beyond the facet that no region contains"""
    import mpqp
    from common import ev
    nx = m['nx']
    a = P['A'][i]
    rows = [j for j in range(len(Fc['A'])) if j != i]
    c, r = mpqp.depth([Fc['A'][j] for j in rows], [Fc['b'][j] for j in rows], nx, [a], [P['b'][i]])
    cands = [c] if c is not None else []
    import random
    rng = random.Random(i)
    for _ in range(6):
        g = [F(rng.randint(-5, 5)) for _ in range(nx)]
        s = exact.lp(g, Fc['A'], Fc['b'], Fc['C'], Fc['d'])
        if s.status == 'opt' and c is not None:
            cands.append([(u + 2 * v) / 3 for u, v in zip(c, s.x)])
    for c in cands:
        for e in (F(1, 10 ** 4), F(1, 100), F(1, 10 ** 5)):
            x = [F(float(u + e * v)) for u, v in zip(c, a)]
            if any(inside(Q, x, F(1, 10 ** 6)) for Q in regs):
                continue
            f = exact.feas(m['Au'], [v - exact.dot(r, x) - F(1, 10 ** 5) * 0 for r, v in zip(m['Ax'], m['b'])], [], [], m['nu'])
            if f[0] == 'pt':
                return dict(k='hole', x=ev(x), u=ev(f[1]))
    return None
def separation(regs):
    from common import ev
    out = []
    for i in range(len(regs)):
        for j in range(i + 1, len(regs)):
            P, Q = regs[i], regs[j]
            A, b = P['A'] + Q['A'], P['b'] + Q['b']
            idx = [k for k, r in enumerate(A) if any(abs(v) >= F(1, 4) for v in r)]
            n = P['n']
            s = exact.lp([F(0)] * n + [F(-1)], [A[k] + [F(1)] for k in idx] + [[F(0)] * n + [F(1)]], [b[k] for k in idx] + [F(1)])
            if s.status == 'opt' and -s.val <= F(1, 10 ** 5):
                y = [F(0)] * len(A)
                for k, v in zip(idx, s.y):
                    y[k] = v
                out.append(dict(i=i + 1, j=j + 1, k='sep', y=ev(y)))
            else:
                out.append(dict(i=i + 1, j=j + 1, k='pt', x=ev(s.x[:n])))
    return out

# ---- sampled parameters ------------------------------------------------------------------------------------------
def samples(rng, m, exact_regs):
    nx = m['nx']
    pts = []
    for R in exact_regs[:10]:
        pts.append(R['center'])
        A, b = R['A'] + [r for e in exact.eye(nx) for r in (e, [-v for v in e])], R['b'] + [c + s for c in [F(0)] * nx for s in (BOX, BOX)]
        for _ in range(2):
            g = gen.row(rng, nx, 3, 1)
            s = exact.lp([-v for v in g], A, b)
            if s.status == 'opt':
                for t in (F(1, 50), F(1, 3)):
                    pts.append([c + (1 - t) * (x - c) for c, x in zip(R['center'], s.x)])
                pts.append([c + (1 + F(1, 8)) * (x - c) for c, x in zip(R['center'], s.x)])
    J = joint(m)
    pts += p20.boundary_points(J, nx, [gen.row(rng, nx, 2, 1) for _ in range(2)])
    pts += [[gen.dy(rng, -5, 5, 4) for _ in range(nx)] for _ in range(4)]
    rng.shuffle(pts)
    return [[F(float(v)) for v in x] for x in pts[:30]]
def usable(m, x):
    """(certificate) at a parameter that is not within tolerance of the boundary of a region, else None"""
    import mpqp, ocp
    from common import ev
    try:
        s = mpqp.solve(m, x)
    except RuntimeError:
        return None
    _, _, A, b, _ = mpqp.at(m, x)
    mg = ocp.margin(A, b, [], [], m['nu'])
    if mg is None or (s[0] == 'inf' and mg > -F(1, 2000)) or (s[0] == 'opt' and mg < F(1, 2000)):
        return None
    if s[0] == 'inf':
        return dict(k='inf', y=ev(s[1]), z=[])
    return dict(k='opt', x=ev(s[1]), y=ev(s[2]), z=[])
def run(case, rec):
    ws = workspace(case)
    import numpy as np, random
    import mpqp, ocp, p06
    from common import call, result, ev, enc, rnd, rv, rpoly_of, pol_enc, bounded_wit, deepest, same_set
    rng = random.Random(case['seed'])
    if case['kind'] == 'mpc':
        o = ocp.exact_o(case['o'], [1] * case['o']['N'])
        m = mpqp.from_ocp(o)
        m = mfr(mj(m))
    else:
        m = mfr(case['m'])
    nx, nu = m['nx'], m['nu']
    q = build(mj(m))
    em_ = menc(m)
    if case['kind'] != 'mpc' or nx + nu <= 3:
        feasible_set(m, q, rec)
    if case['kind'] == 'set':
        return
    tame = mpqp.tame(m, limit=40)
    if tame is None:
        return
    e = call(q.explicit_solve)
    regs = []
    raw = []
    def fields(s):
        for cr in s.critical_regions:
            got = []
            r = result(('ok', cr), region_fields(m, got))
            raw.append((r, got))
            regs.append(rpoly_of(cr.polyhedron))
        return {}
    r = result(e, fields)
    qs = []
    if e[0] == 'ok':
        s = e[1]
        for x in samples(rng, m, tame):
            w = usable(m, x)
            if w is None:
                continue
            xa = lambda: ws(x)
            num = lambda v: None if v is None else dict(v=rv(np.asarray(v, dtype=float).reshape(-1)))
            sca = lambda v: None if v is None else dict(v=enc(rnd(float(v))))
            reg = lambda c: None if c is None else dict(pol=pol_enc(rpoly_of(c.polyhedron)))
            qs.append(dict(x=ev(x), w=w, u=result(call(s.u, xa()), num), p=result(call(s.p, xa()), num), V=result(call(s.V, xa()), sca),
                           reg=result(call(s.get_critical_region, xa()), reg)))
    for rr, got in raw:
        rec.emit('region', ask='set', m=em_, act=rr.get('act', []), box=enc(BOX), r=rr, c=safe_certs(m, got))
    ok = r['k'] == 'ok'
    rec.emit('explicit', m=em_, box=enc(BOX), regs=[pol_enc(P) for P in regs], r=r, q=qs,
             cover=cover(m, regs) if ok else [], sep=separation(regs) if ok else [])
def feasible_set(m, q, rec):
    import numpy as np
    import p06
    from common import call, result, ev, enc, rv, rpoly_of, pol_enc, bounded_wit, deepest, same_set
    J, nx = joint(m), m['nx']
    if J['n'] > 4 or len(J['b']) > 14:
        return
    wb = bounded_wit(J)
    kw = dict(p=pol_enc(J), dims=list(range(1, nx + 1)), box=enc(64))
    H = None
    if wb['k'] == 'bounded':
        x, d = deepest(J)
        if x is None or d < F(1, 100):
            return
        wb['pt'] = ev(x)
        V = exact.vertices(J['A'], J['b'], n=J['n'])
        H = p06.hull_rows([v[:nx] for v in V], nx)
        kw['h'] = pol_enc(H)
    elif wb['k'] == 'farkas':
        x, d = deepest(dict(J, b=[v + F(1, 1000) for v in J['b']]))
        if x is not None:
            return
    kw['wb'] = wb
    got = [None]
    def fields(p):
        got[0] = rpoly_of(p)
        return dict(p=pol_enc(got[0]), v=[rv(np.asarray(x, dtype=float).reshape(-1)) for x in p.vertices])
    r = result(call(q.get_feasible_set), fields)
    kw['w'] = same_set(got[0], H, 64) if got[0] is not None and H is not None and got[0]['n'] == H['n'] else {}
    rec.emit('proj', r=r, **kw)
