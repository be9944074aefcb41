"""P26: plots draw the given data (read back from the figure)."""
from record import arr, vec, typed
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = []

def polyhedron(rng):
    n = rng.choice([2, 2, 3, 3, 4])
    kind = rng.choice(['bounded'] * 8 + ['cone', 'empty'])
    m = {2: 7, 3: 8, 4: 9}[n]
    return gen.poly(rng, n, rng.randint(2 * n, m), kind, 1 if n > 2 and rng.random() < .08 else 0, k=2)
def cases(rng, tier):
    k = 1 if tier == 'quick' else 10
    out = []
    for _ in range(220 * k):
        P = polyhedron(rng)
        dims = None if rng.random() < .3 else rng.sample(range(P['n']), 2)
        out.append(dict(kind='poly', p=pj(P), dims=dims))
    vecs = lambda n, T: fl([[gen.dy(rng, -9, 9, 8) for _ in range(n)] for _ in range(T)])
    for _ in range(150 * k):
        n = rng.choice([2, 2, 3, 4])
        x = vecs(n, rng.randint(1, 7))
        if len(x) > 2 and rng.random() < .3:
            x[-1] = list(x[0])
        out.append(dict(kind='path', x=x, dims=None if rng.random() < .3 else rng.sample(range(n), 2), text=rng.random() < .4, label=rng.random() < .4))
    for _ in range(300 * k):
        what = rng.choice(['input', 'state', 'output'])
        n = rng.choice([1, 2, 3])
        T = rng.randint(1, 6) + (what != 'input')
        c = dict(kind='time', what=what, y=vecs(n, T), h=float(F(rng.choice([1, 2, 3, 4, 8]), rng.choice([1, 4, 8]))), bounds=None)
        m = n
        if what == 'output':
            m = rng.choice([1, 2, 3])
            c['C'] = vecs(n, m)
        if rng.random() < .6:
            c['bounds'] = vecs(m, 2)
        out.append(c)
    for _ in range(30 * k):
        out.append(dict(kind='partition', o=__import__('p20').small(rng)))
    for _ in range(120 * k):
        o = __import__('p20').small(rng)
        while o['sys'][0]['nx'] != 2 or o['sys'][0]['nu'] * o['N'] > 2:
            o = __import__('p20').small(rng)
        out.append(dict(kind='value', o=o, res=rng.choice([10, 14, 20, 25]), seed=rng.randrange(1 << 30)))
    return out

# ---- reading the figure ------------------------------------------------------------------------------------------
def number(label):
    import re
    return [int(v) for v in re.findall(r'\d+', label or '')]
def labels(ax):
    a, b = number(ax.get_xlabel()), number(ax.get_ylabel())
    return a[:1] + b[:1] if a and b else []
def points(P):
    from common import ev, rnd
    return [ev([rnd(float(x)), rnd(float(y))]) for x, y in P]
def polygons(ax):
    out = []
    for p in ax.patches:
        T = p.get_transform() - ax.transData
        for q in T.transform_path(p.get_path()).to_polygons(closed_only=True):
            q = [tuple(v) for v in q]
            if len(q) > 1 and q[0] == q[-1]:
                q = q[:-1]
            out.append(points(q))
    return out
STYLE = {'default': 'line', 'steps': 'pre', 'steps-pre': 'pre', 'steps-post': 'post', 'steps-mid': 'mid'}
def lines(ax):
    out = []
    for l in ax.lines:
        X, Y = list(l.get_xdata(orig=False)), list(l.get_ydata(orig=False))
        if l.get_transform() == ax.get_yaxis_transform(which='grid'):       # a line across the whole axes
            lo, hi = ax.get_xlim()
            X = [lo + x * (hi - lo) for x in X]
        d = dict(p=points(zip(X, Y)), style=STYLE[l.get_drawstyle()])
        if d['style'] == 'mid':
            raise ValueError('steps-mid')
        out.append(d)
    return out
def run(case, rec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        {'poly': poly, 'path': path, 'time': time_, 'partition': partition, 'value': value}[case['kind']](case, rec, plt)
    finally:
        plt.close('all')
def poly(case, rec, plt):
    from common import pol_exact, pol_enc, make, call, result, deepest, ev
    P = pol_exact(case['p'])
    dims = case['dims'] or [0, 1]
    wb, H = shadow0(P, dims)
    if wb is None:
        return
    p = make(case['p'])
    res = call(p.plot) if case['dims'] is None else call(p.plot, list(dims))
    r = result(res, lambda v: dict(polys=polygons(plt.gca()), lab=labels(plt.gca())))
    kw = dict(h=pol_enc(H)) if H is not None else {}
    rec.emit('drawpoly', p=pol_enc(P), dims=[d + 1 for d in dims], wb=wb, r=r, **kw)
def shadow0(P, dims):
    from common import deepest, ev, feas_wit
    from common import bounded_wit
    wb = bounded_wit(P)
    if wb['k'] == 'farkas':
        x, m = deepest(dict(P, b=[v + F(1, 100) for v in P['b']]))
        return (None, None) if x is not None else (wb, None)
    if wb['k'] != 'bounded':
        x, m = deepest(P)
        return (None, None) if x is None or m < F(1, 100) else (wb, None)
    if P['C']:
        return None, None
    x, m = deepest(P)
    if x is None or m < F(1, 100):
        return None, None
    import p06
    V = exact.vertices(P['A'], P['b'], n=P['n'])
    pts = [[v[d] for d in dims] for v in V]
    u = sorted(set(map(tuple, pts)))
    for i in range(len(u)):
        for j in range(i):
            if max(abs(a - b) for a, b in zip(u[i], u[j])) < F(1, 10 ** 4):
                return None, None
    wb['pt'] = ev(x)
    return wb, p06.hull_rows(pts, 2)
def path(case, rec, plt):
    import numpy as np
    from common import call, result, ev
    from pympc.plot import plot_state_space_trajectory
    x = [vec(v) for v in case['x']]
    kw = {}
    if case['dims'] is not None:
        kw['dim'] = list(case['dims'])
    if case['text']:
        kw['text'] = True
    if case['label']:
        kw['label'] = 'name'
    def f(v):
        ax = plt.gca()
        marks = [m for c in ax.collections for m in c.get_offsets()]
        return dict(lines=lines(ax), marks=points(marks), lab=labels(ax), texts=[dict(p=points([t.get_position()])[0], n=(number(t.get_text()) or [-1])[-1]) for t in ax.texts],
                    named=sum(1 for l in ax.lines if l.get_label() == 'name'))
    r = result(call(plot_state_space_trajectory, x, **kw), f)
    rec.emit('drawpath', x=[ev(v) for v in case['x']], dims=[d + 1 for d in (case['dims'] or [0, 1])], text=case['text'], label=case['label'], r=r)
def time_(case, rec, plt):
    import numpy as np
    from common import call, result, ev, em, enc, rnd
    from pympc import plot as pp
    y = [vec(v) for v in case['y']]
    b = None if case['bounds'] is None else [vec(v) for v in case['bounds']]
    m = len(case['y'][0])
    kw = {}
    a = [y, case['h']]
    if case['what'] == 'output':
        C = np.array(case['C'])
        m = C.shape[0]
        a = [C] + a
        kw['C'] = em(case['C'])
    if b is not None:
        a.append(b)
    fn = dict(input=pp.plot_input_sequence, state=pp.plot_state_trajectory, output=pp.plot_output_trajectory)[case['what']]
    def f(v):
        axes = sorted(plt.gcf().axes, key=lambda x: -x.get_position().y1)
        return dict(axes=[dict(lines=lines(x), lo=enc(rnd(x.get_xlim()[0])), hi=enc(rnd(x.get_xlim()[1])), lab=number(x.get_ylabel())[:1]) for x in axes])
    r = result(call(fn, *a), f)
    rec.emit('drawtime', kind=case['what'], y=[ev(v) for v in case['y']], h=enc(case['h']), m=m, bounds=[ev(v) for v in case['bounds'] or []], r=r, **kw)
def far(q, P):
    """how badly the polygon violates the rows of P, or leaves its vertices out (used only to pair polygons and regions)"""
    from rat import dec
    q = [[float(dec(v)) for v in x] for x in q]
    out = max(max(sum(float(a) * v for a, v in zip(r, x)) - float(b) for r, b in zip(P['A'], P['b'])) for x in q)
    V = [[float(v) for v in x] for x in exact.vertices(P['A'], P['b'], n=2)]
    return max(out, max(min(abs(x[0] - v[0]) + abs(x[1] - v[1]) for x in q) for v in V))
def partition(case, rec, plt):
    """one polygon per critical region"""
    import numpy as np
    import ocp, mpqp, p12, dyn
    from common import call, result, make, rpoly_of, pol_enc
    from pympc.control.controllers import ModelPredictiveController as MPC
    c = case['o']
    o = ocp.exact_o(c, [1] * c['N'])
    if o['sys'][0]['nx'] != 2 or mpqp.tame(mpqp.from_ocp(o)) is None:
        return
    q = MPC(dyn.make_sys(c['sys'][0], True), c['N'], arr(c['Q']), arr(c['R']), arr(c['P']), make(c['doms'][0]), make(c['XN']))
    if call(q.store_explicit_solution)[0] != 'ok':
        return
    regs = [rpoly_of(cr.polyhedron) for cr in q.explicit_solution.critical_regions]
    ws = [shadow0(P, [0, 1]) for P in regs]
    if any(w[0] is None or w[0]['k'] != 'bounded' for w in ws) or any(len(P['A']) > 20 for P in regs):
        return
    res = call(q.plot_state_space_partition)
    got = []
    def f(v):
        got.extend(polygons(plt.gca()))
        return {}
    r = result(res, f)
    for k, (P, (wb, H)) in enumerate(zip(regs, ws)):
        rk = dict(r)
        if r['k'] == 'ok':
            best = sorted(got, key=lambda q: far(q, P))[:1] if len(got) == len(regs) else []
            rk.update(polys=best, lab=labels(plt.gca()))
        rec.emit('drawpoly', p=pol_enc(P), dims=[1, 2], wb=wb, h=pol_enc(H), r=rk)
def value(case, rec, plt):
    """level sets of the optimal value function over the feasible set"""
    import numpy as np, random
    import ocp, mpqp, p12, dyn, p06
    from common import call, result, make, pol_enc, ev, enc, rnd, fr
    from matplotlib.contour import ContourSet
    from pympc.control.controllers import ModelPredictiveController as MPC
    rng = random.Random(case['seed'])
    c = case['o']
    o = ocp.exact_o(c, [1] * c['N'])
    if o['sys'][0]['nx'] != 2:
        return
    m = mpqp.from_ocp(o)
    m = p12.mfr(p12.mj(m))
    if mpqp.tame(m) is None:
        return
    n = 2 + m['nu']
    J = dict(n=n, A=[a + b for a, b in zip(m['Ax'], m['Au'])], b=m['b'], C=[], d=[])
    if n > 4 or len(J['b']) > 16:
        return
    wb, _ = shadow0(J, [0, 1])
    if wb is None or wb['k'] != 'bounded':
        return
    S = p06.hull_rows([v[:2] for v in exact.vertices(J['A'], J['b'], n=n)], 2)
    V = exact.vertices(S['A'], S['b'], n=2)
    wS, H = shadow0(S, [0, 1])
    if wS is None or wS['k'] != 'bounded':
        return
    res = case['res']
    q = MPC(dyn.make_sys(c['sys'][0], True), c['N'], arr(c['Q']), arr(c['R']), arr(c['P']), make(c['doms'][0]), make(c['XN']))
    if call(q.store_explicit_solution)[0] != 'ok':
        return
    lo = [min(v[i] for v in V) for i in (0, 1)]
    cell = [(max(v[i] for v in V) - lo[i]) / (res - 1) for i in (0, 1)]
    lev, got = {}, {}
    def f(v):
        ax = plt.gcf().axes[0]
        for s in [s for s in ax.collections if isinstance(s, ContourSet)]:
            for l, p in zip(s.levels, s.get_paths()):
                lev[float(l)] = [tuple(map(float, x)) for y in p.to_polygons(closed_only=False) for x in y]
        got.update(polys=polygons(ax), lab=labels(ax))
        return dict(n=sum(1 for l in lev if lev[l]))
    r = result(call(q.plot_optimal_value_function, resolution=res), f)
    # certificates
    def val(x):
        s = mpqp.solve(m, x)
        return None if s[0] == 'inf' else (s[3], dict(x=ev(x), w=dict(k='opt', x=ev(s[1]), y=ev(s[2]), z=[])))
    at, cross = [], []
    mid = [sum(v[i] for v in V) / len(V) for i in (0, 1)]
    for l in lev:
        for p in rng.sample(lev[l], min(4, len(lev[l]))):
            p = [F(v) for v in p]
            k = [(p[i] - lo[i]) / cell[i] for i in (0, 1)]
            cand = [[(lo[i] + cell[i] * (j[i])) for i in (0, 1)] for j in [(a, b) for a in {k[0] // 1, -(-k[0] // 1), round(k[0]), k[0]} for b in {k[1] // 1, -(-k[1] // 1), round(k[1]), k[1]}]]
            vs = []
            for x in cand:
                x = [F(float(a + (b - a) * F(1, 1000000))) for a, b in zip(x, mid)]       # off the boundary of the feasible set
                v = val(x)
                if v is not None:
                    vs.append(v)
            if len(vs) < 2:
                # a point without feasible neighbours is not part of a level set
                vs = [val(V[0])] * 2
            vs.sort(key=lambda v: v[0])
            at.append(dict(p=ev(p), l=enc(rnd(l)), lo=vs[0][1], hi=vs[-1][1]))
    deep = []
    for _ in range(60):
        w = [F(rng.randint(0, 12)) ** 2 for _ in V]
        if not sum(w):
            continue
        x = [F(float(sum(a * v[i] for a, v in zip(w, V)) / sum(w))) for i in (0, 1)]
        box = [[x[i] + s[i] * 2 * cell[i] for i in (0, 1)] for s in ((1, 1), (1, -1), (-1, 1), (-1, -1))]
        if all(exact.dot(a, y) <= b for y in box for a, b in zip(S['A'], S['b'])):
            vs = [val(y)[0] for y in box]
            v = val(x)
            deep.append((min(vs + [v[0]]), max(vs + [v[0]]), v[1], x))
        if len(deep) >= 8:
            break
    if r['k'] == 'ok':
        for a in deep:
            for b in deep:
                for l in lev:
                    if a[1] < F(l) < b[0] and len(cross) < 12:
                        near = []
                        for p in lev[l]:
                            # closest point of the segment, measured in cells
                            A = np.array([float(v / w) for v, w in zip(a[3], cell)]); B = np.array([float(v / w) for v, w in zip(b[3], cell)])
                            Q = np.array([v / float(w) for v, w in zip(p, cell)])
                            s = min(1., max(0., float((Q - A).dot(B - A) / (B - A).dot(B - A))))
                            near.append((np.max(np.abs(A + s * (B - A) - Q)), s, p))
                        best = min(near) if near else None
                        cross.append(dict(a=a[2], b=b[2], l=enc(rnd(l)), found=best is not None, s=enc(rnd(best[1])) if best else enc(F(0)), p=ev([F(v) for v in best[2]]) if best else ev([F(0)] * 2)))
    rec.emit('drawvalue', m=p12.menc(m), deep=len(deep), cell=ev(cell), at=at, cross=cross, r=r)
    if r['k'] == 'ok':
        rec.emit('drawpoly', p=pol_enc(S), dims=[1, 2], wb=wS, h=pol_enc(H), r=dict(k='ok', **got))
