"""Replays a history of PolyMachine.tla on real polyhedra: every abstract step is given concrete data, executed, and
recorded together with the certificates the specification (Objects.tla) needs."""
import random, copy
from fractions import Fraction as F
import exact, gen, sym

FACTS = ('empty', 'bounded', 'radius', 'center', 'vertices')
EDITS = ('ineq', 'eq', 'lower', 'upper', 'bounds', 'symineq', 'symeq')

def gen_histories(ctx, num, depth_cfg='Gen_PolyMachine.cfg', depth=10, seed=1, simulate=True, module='PolyMachine.tla'):
    """behaviours of the specification, as lists of steps"""
    import tlc, re, json, time
    args = ('-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)) if simulate else ()
    r = tlc.run(module, depth_cfg, ctx['classes'], ctx['scratch'], args=args, timeout=max(30, ctx['deadline'] - time.time()))
    out = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<\s*"HIST",\s*"(.*?)"\s*>>', r['text'])]
    if not out:
        raise RuntimeError('no histories generated:\n' + r['text'][-2000:])
    return out

class World:
    def __init__(self, rec, seed, n, mem=None, symbolic=True, fine=False, far=0):
        self.rec, self.rng, self.n, self.mem = rec, random.Random(seed), n, mem
        self.real, self.mirror = {}, {}          # slot -> real object / dict(P=..., fp=..., lax=...)
        self.symbolic, self.fine, self.far = symbolic, fine, far
        self.same, self.point = seed % 2 == 1, {}
        self.t = [F(self.rng.randint(-4 * far, 4 * far), 4) for _ in range(n)] if far else [F(0)] * n
        rec.emit('begin')

    # ---- recording ------------------------------------------------------------------------------------------------
    def emit(self, op, r, **kw):
        if self.mem is not None:
            kw['pre'], kw['mem'] = self.mem.pre(), self.mem.snap()
        self.rec.emit('obj', op=op, r=r, **kw)
    def keep(self, x):
        if self.mem is not None:
            self.mem.add(x)
        return x
    def arr(self, M, n=None):
        """caller-owned float (or integer) array"""
        import numpy as np
        from record import arr
        a = arr([[float(v) for v in r] for r in M], n)
        if a.size and all(v.denominator == 1 for r in M for v in r) and self.rng.random() < .25:
            a = a.astype(int)
        return self.keep(a)
    def vec(self, v):
        import numpy as np
        a = np.array([float(x) for x in v])
        if a.size and all(x.denominator == 1 for x in v) and self.rng.random() < .25:
            a = a.astype(int)
        return self.keep(a)

    # ---- choice of data -------------------------------------------------------------------------------------------
    def ref(self, s):
        """a dyadic point, inside the set if possible"""
        from common import deepest
        P = self.mirror[s]['P']
        n = P['n']
        x = None
        if P['A'] or P['C']:
            x, _ = deepest(P, F(4))
        if x is None:
            x = [F(0)] * n
        return [F(round(v * 16), 16) if abs(v) < 1000 else F(0) for v in x]
    def subset(self, n):
        k = self.rng.randint(1, n)
        L = self.rng.sample(range(n), k)
        if self.fine and self.rng.random() < .15:        # a coordinate may be listed twice
            L.insert(self.rng.randint(0, k), self.rng.choice(L))
        return L
    def tick(self, v):
        """numbers with many digits"""
        if not self.fine or self.rng.random() < .5:
            return v
        return v + F(self.rng.randint(-99, 99), 1 << 22)
    def ticks(self, v):
        return [self.tick(x) for x in v]
    def edit_data(self, s, op):
        """JSON-free description of an addition: dict(what, idx (0-based) or None, M, v, lo, hi, x)"""
        rng = self.rng
        P = self.mirror[s]['P']
        n = P['n']
        x0 = self.ref(s)
        idx = None if rng.random() < .5 else self.subset(n)
        full = list(range(n)) if idx is None else idx
        if op in ('eq', 'symeq'):
            for _ in range(20):
                idx = None if rng.random() < .5 else self.subset(n)
                full = list(range(n)) if idx is None else idx
                r = self.ticks(gen.row(rng, len(full), 2))
                R = [F(0)] * n
                for k, j in enumerate(full):
                    R[j] += r[k]
                if exact.rank(P['C'] + [R], n) == len(P['C']) + 1 and len(P['C']) + 1 < n:
                    break
            else:
                op = 'ineq' if op == 'eq' else 'symineq'
        if op in ('eq', 'symeq'):
            v = self.tick(exact.dot(R, x0) + (F(0) if rng.random() < .85 else F(rng.randint(-8, 8), 2)))
            if op == 'eq':
                return dict(what='eq', idx=idx, M=[r], v=[v])
            return dict(what='sym-eq', idx=None, x=[sym.of_row(rng, R, -v, n)])
        if op in ('ineq', 'symineq'):
            rows, rhs, xs = [], [], []
            for _ in range(rng.choice([1, 1, 2])):
                if op == 'ineq':
                    r = self.ticks(gen.row(rng, len(full), 2))
                    if self.fine and idx is None and P['A'] and rng.random() < .3:
                        j = rng.randrange(len(P['A']))      # almost a repetition
                        r = self.ticks(P['A'][j])
                        rows.append(r)
                        rhs.append(P['b'][j] - F(rng.randint(1, 40), 1 << 21) * max(F(1), abs(F(round(P['b'][j])))))
                        continue
                    R = [F(0)] * n
                    for k, j in enumerate(full):
                        R[j] += r[k]
                else:
                    while True:
                        t = sym.tree(rng, n)
                        R, c = sym.affine(t, n)
                        if any(R) and max(map(abs, R)) < 20:
                            break
                u = rng.random()
                gap = F(rng.randint(1, 4), 4) if u < .5 else (F(rng.randint(4, 24), 2) if u < .85 else -F(rng.randint(2, 20), 2))
                v = self.tick(exact.dot(R, x0) + gap)
                if op == 'ineq':
                    rows.append(r)
                    rhs.append(v)
                else:
                    xs.append(sym.with_const(t, -v - c))
            if op == 'ineq':
                return dict(what='ineq', idx=idx, M=rows, v=rhs)
            return dict(what='sym-ineq', idx=None, x=xs)
        w = [F(rng.randint(1, 12), 4) for _ in full]
        z = [F(rng.randint(1, 12), 4) for _ in full]
        if rng.random() < .08:
            z[0] = -F(9, 2)
        lo = self.ticks([x0[j] - a for j, a in zip(full, w)])
        hi = self.ticks([x0[j] + a for j, a in zip(full, z)])
        return dict(what=op, idx=idx, lo=lo, hi=hi)

    @staticmethod
    def rows_of_edit(a, n):
        full = list(range(n)) if a.get('idx') is None else a['idx']
        def spread(r):
            R = [F(0)] * n
            for k, j in enumerate(full):
                R[j] += r[k]
            return R
        U = [[F(int(i == j)) for i in range(n)] for j in full]
        N = [[-v for v in r] for r in U]
        w = a['what']
        if w == 'ineq':
            return [spread(r) for r in a['M']], list(a['v']), [], []
        if w == 'eq':
            return [], [], [spread(r) for r in a['M']], list(a['v'])
        if w == 'lower':
            return N, [-v for v in a['lo']], [], []
        if w == 'upper':
            return U, list(a['hi']), [], []
        if w == 'bounds':
            return N + U, [-v for v in a['lo']] + list(a['hi']), [], []
        f = lambda xs: ([sym.affine(t, n)[0] for t in xs], [-sym.affine(t, n)[1] for t in xs])
        if w == 'sym-ineq':
            return f(a['x']) + ([], [])
        if w == 'sym-eq':
            return ([], []) + f(a['x'])
        if w == 'sym':
            return f(a['x']) + f(a['xe'])
        if w == 'data':
            p = a['p']
            return p['A'], p['b'], p['C'], p['d']
    @staticmethod
    def enc_edit(a):
        from rat import ev, em
        from common import pol_enc
        d = dict(what=a['what'], all=a.get('idx') is None, idx=[i + 1 for i in (a.get('idx') or [])])
        for k in ('v', 'lo', 'hi'):
            if k in a:
                d[k] = ev(a[k])
        if 'M' in a:
            d['M'] = em(a['M'])
        for k in ('x', 'xe'):
            if k in a:
                d[k] = [sym.js(t) for t in a[k]]
        if 'p' in a:
            d['p'] = pol_enc(a['p'])
        return d

    def new_data(self):
        rng, n = self.rng, self.n
        u = 1 if getattr(self, 'sym_only', False) else rng.random()
        if u < .55:
            kind = rng.choice(['bounded', 'bounded', 'bounded', 'cone', 'any'])
            p = gen.poly(rng, n, rng.randint(1, 2 * n + 2), kind, rng.choice([0, 0, 0, 1]) if n > 1 else 0, k=2)
            k = [i for i, r in enumerate(p['A']) if any(r)]
            p['A'], p['b'] = [p['A'][i] for i in k], [p['b'][i] for i in k]
            if rng.random() < .05:
                p['A'], p['b'] = [], []
            if self.fine or self.far:
                p = gen.moved(p, [F(1)] * n, self.t)
                p['A'], p['C'] = [self.ticks(r) for r in p['A']], [self.ticks(r) for r in p['C']]
                p['b'], p['d'] = self.ticks(p['b']), self.ticks(p['d'])
            return dict(what='data', idx=None, p=p)
        if u < .85:
            what = rng.choice(['bounds', 'bounds', 'lower', 'upper'])
            idx = None if rng.random() < .5 else self.subset(n)
            m = n if idx is None else len(idx)
            lo = self.ticks([F(rng.randint(-8, 0), 2) + (self.t[j] if idx is None else self.t[idx[j]]) for j in range(m)])
            hi = self.ticks([l + F(rng.randint(1, 12), 2) for l in lo])
            return dict(what=what, idx=idx, lo=lo, hi=hi)
        def tr():
            while True:
                t = sym.tree(rng, n)
                R, c = sym.affine(t, n)
                if any(R) and max(map(abs, R)) < 20:
                    return sym.with_const(t, self.tick(-c - F(rng.randint(1, 12), 4) - exact.dot(R, self.t)))
        a = dict(what='sym', idx=None, x=[tr() for _ in range(rng.randint(1, 4))], xe=[])
        if rng.random() < .3 and n > 1:
            a['xe'] = [tr()]
        return a

    # ---- execution -------------------------------------------------------------------------------------------------
    def symbols(self, n):
        import sympy as sp
        return sp.Matrix([sp.Symbol('x%d' % (n - i)) for i in range(n)])
    def execute_new(self, a):
        import numpy as np, sympy as sp
        from pympc.geometry.polyhedron import Polyhedron as Pol
        n = self.n
        idx = None if a['idx'] is None else self.keep(list(a['idx']))
        kw = {} if idx is None else dict(indices=idx, n=n)
        w = a['what']
        if w == 'data':
            p = a['p']
            A, b = self.arr(p['A'], n), self.vec(p['b'])
            if p['C']:
                return Pol(A, b, self.arr(p['C'], n), self.vec(p['d']))
            return Pol(A, b)
        if w in ('lower', 'upper'):
            v = a['lo'] if w == 'lower' else a['hi']
            f = Pol.from_lower_bound if w == 'lower' else Pol.from_upper_bound
            return f(self.vec(v), **kw)
        if w == 'bounds':
            return Pol.from_bounds(self.vec(a['lo']), self.vec(a['hi']), **kw)
        xs = self.symbols(n)
        ineq = sp.Matrix([sym.expr(t, xs) for t in a['x']])
        if a['xe']:
            return Pol.from_symbolic(xs, ineq, sp.Matrix([sym.expr(t, xs) for t in a['xe']]))
        return Pol.from_symbolic(xs, ineq)
    def execute_edit(self, p, a, n):
        import sympy as sp
        idx = None if a['idx'] is None else self.keep(list(a['idx']))
        w = a['what']
        kw = {} if idx is None else dict(indices=idx)
        m = n if idx is None else len(idx)
        if w == 'ineq':
            return p.add_inequality(self.arr(a['M'], m), self.vec(a['v']), **kw)
        if w == 'eq':
            return p.add_equality(self.arr(a['M'], m), self.vec(a['v']), **kw)
        sc = len(a.get('lo', [])) == 1 and self.rng.random() < .5
        g = (lambda v: float(v[0])) if sc else self.vec
        if w == 'lower':
            return p.add_lower_bound(g(a['lo']), **kw)
        if w == 'upper':
            return p.add_upper_bound(g(a['hi']), **kw)
        if w == 'bounds':
            return p.add_bounds(g(a['lo']), g(a['hi']), **kw)
        xs = self.symbols(n)
        e = sp.Matrix([sym.expr(t, xs) for t in a['x']])
        return p.add_symbolic_inequality(xs, e) if w == 'sym-ineq' else p.add_symbolic_equality(xs, e)

    def put(self, s, obj, P, fp=False, lax=False):
        self.real[s] = obj
        self.mirror[s] = dict(P=P, fp=fp, lax=lax)
        if self.mem is not None and obj is not None:
            self.mem.add(obj, 'o%d' % s)

    def step(self, st):
        """one abstract step; returns False if it does not apply"""
        from record import call, result
        op, s, a, b = st['op'], st['s'], st['a'], st['b']
        name = 'o%d' % s
        ok = lambda v: dict()
        if op == 'new':
            d = self.new_data()
            res = call(self.execute_new, d)
            if res[0] == 'ok':
                A, bb, C, dd = self.rows_of_edit(d, self.n)
                self.put(s, res[1], dict(n=self.n, A=list(A), b=list(bb), C=list(C), d=list(dd)))
            self.emit('new', result(res, ok), o=name, n=self.n, **self.enc_edit(d))
            return
        if op in ('copy', 'project', 'intersection', 'product'):
            if a not in self.real or (op in ('intersection', 'product') and b not in self.real):
                return False
        elif s not in self.real:
            return False
        if op in EDITS:
            m = self.mirror[s]
            n = m['P']['n']
            d = self.edit_data(s, op)
            res = call(self.execute_edit, self.real[s], d, n)
            if res[0] == 'ok':
                A, bb, C, dd = self.rows_of_edit(d, n)
                P = m['P']
                m['P'] = dict(n=n, A=P['A'] + A, b=P['b'] + bb, C=P['C'] + C, d=P['d'] + dd)
                m['lax'] = False
            self.emit('add', result(res, ok), o=name, **self.enc_edit(d))
        elif op == 'copy':
            f = copy.copy if self.rng.random() < .6 else copy.deepcopy
            res = call(f, self.real[a])
            if res[0] == 'ok':
                m = self.mirror[a]
                self.put(s, res[1], dict(m['P']), m['fp'], m['lax'])
            self.emit('copy', result(res, ok), o=name, src='o%d' % a)
        elif op in ('intersection', 'product'):
            A, B = self.mirror[a], self.mirror[b]
            p, q = A['P'], B['P']
            if op == 'intersection' and p['n'] != q['n']:
                return False
            res = call(self.real[a].intersection if op == 'intersection' else self.real[a].cartesian_product, self.real[b])
            if res[0] == 'ok':
                if op == 'intersection':
                    P = dict(n=p['n'], A=q['A'] + p['A'], b=q['b'] + p['b'], C=q['C'] + p['C'], d=q['d'] + p['d'])
                else:
                    l = lambda M, k: [r + [F(0)] * k for r in M]
                    rr = lambda M, k: [[F(0)] * k + r for r in M]
                    P = dict(n=p['n'] + q['n'], A=l(p['A'], q['n']) + rr(q['A'], p['n']), b=p['b'] + q['b'],
                             C=l(p['C'], q['n']) + rr(q['C'], p['n']), d=p['d'] + q['d'])
                self.put(s, res[1], P, A['fp'] or B['fp'], False)
            self.emit(op, result(res, ok), o=name, a='o%d' % a, b='o%d' % b)
        elif op == 'project':
            return self.project(s, a)
        elif op == 'normalize':
            res = call(self.real[s].normalize)
            self.mirror[s]['fp'] = True
            self.emit('normalize', result(res, ok), o=name)
        elif op == 'remove':
            if not self.robust(s):
                return False
            from common import feas_wit
            import p08
            P = self.mirror[s]['P']
            if P['C'] and (exact.rank(P['C'], P['n']) < len(P['C']) or len(P['C']) >= P['n']):
                return False
            if p08.borderline(P):
                return False
            res = call(self.real[s].remove_redundant_inequalities)
            if res[0] == 'ok':
                self.mirror[s]['fp'] = True
            self.emit('remove', result(res, ok), o=name, wf=feas_wit(P))
        elif op in ('radius', 'center'):
            return self.ball(s, op)
        else:
            return getattr(self, 'q_' + op)(s)

    def project(self, s, a):
        import numpy as np, p06
        from common import call, result, deepest, bounded_wit, pol_enc, enc, ev, rv, same_set, rpoly_of
        P = self.mirror[a]['P']
        if len(P['A']) > 16 or (P['n'] > 2 and len(P['A']) > 13) or not self.robust(a):
            return False
        n = P['n']
        dims = self.rng.sample(range(n), self.rng.randint(1, n))
        wb = bounded_wit(P)
        kw = dict(a='o%d' % a, o='o%d' % s, dims=[d + 1 for d in dims], box=enc(64))
        H = None
        if wb['k'] == 'bounded' and not P['C']:
            x, m = deepest(P)
            if x is None or m < F(1, 50):
                return False
            wb['pt'] = ev(x)
            V = exact.vertices(P['A'], P['b'], n=n)
            if any(abs(c) > 60 for v in V for c in v):
                return False
            H = p06.hull_rows([[v[d] for d in dims] for v in V], len(dims))
            kw['h'] = pol_enc(H)
        res = call(self.real[a].project_to, self.keep(list(dims)))
        got = [None]
        def fields(q):
            got[0] = rpoly_of(q)
            return dict(p=pol_enc(got[0]), v=[rv(np.asarray(x, dtype=float).reshape(-1)) for x in q.vertices])
        r = result(res, fields)
        kw['w'] = same_set(got[0], H, 64) if got[0] is not None and H is not None and got[0]['n'] == H['n'] else {}
        if r['k'] == 'ok' and H is not None:
            self.put(s, res[1], H, True, True)
        self.emit('project', r, wb=wb, **kw)

    # ---- queries ----------------------------------------------------------------------------------------------------
    def margin(self, s):
        """('in', largest uniform slack) or ('out', violation) of the set"""
        P = self.mirror[s]['P']
        n = P['n']
        rows = [(r, v) for r, v in zip(P['A'], P['b'])]
        z = [F(0)] * n
        sol = exact.lp(z + [F(-1)], [r + [F(1)] for r, _ in rows] + [z + [F(1)]], [v for _, v in rows] + [F(1000)],
                       [r + [F(0)] for r in P['C']], P['d'])
        return None if sol.status != 'opt' else -sol.val          # None: inconsistent equalities
    def robust(self, s):
        m = self.margin(s)
        if m is None:
            return not self.mirror[s]['fp']
        if abs(m) >= F(1, 512):
            return True
        return False
    def q_empty(self, s):
        from common import call, result, feas_wit, bool_res
        if not self.robust(s):
            return False
        self.emit('empty', result(call(lambda: self.real[s].empty), bool_res), o='o%d' % s, w=feas_wit(self.mirror[s]['P']))
    def q_bounded(self, s):
        from common import call, result, bounded_wit, bool_res
        if not self.robust(s):
            return False
        self.emit('bounded', result(call(lambda: self.real[s].bounded), bool_res), o='o%d' % s, w=bounded_wit(self.mirror[s]['P']))
    def regular(self, s):
        P = self.mirror[s]['P']
        return self.robust(s) and (not P['C'] or (exact.rank(P['C'], P['n']) == len(P['C']) and len(P['C']) < P['n']))
    def flat_rows(self, P):
        """some row vanishes on the null space of the equalities"""
        import p05
        return any(p05.rel_norm2(P, a) == 0 for a in P['A'])
    def ball(self, s, first):
        import p05, numpy as np
        from common import call, result, bounded_wit, enc, rnd, rv
        P = self.mirror[s]['P']
        if not self.regular(s) or not P['A'] or self.flat_rows(P):
            return False
        w = p05.ball_wit(P)
        rad = w.pop('rad', None)
        if w['k'] == 'ball' and rad < F(1, 10 ** 4):
            return False
        wb = bounded_wit(P)
        num = lambda v: None if v is None else dict(v=enc(rnd(v)))
        vecf = lambda v: None if v is None else dict(v=rv(np.asarray(v, dtype=float).reshape(-1)))
        p = self.real[s]
        r = result(call(lambda: p.radius), num) if first == 'radius' else None
        c = result(call(lambda: p.center), vecf)
        r = r or result(call(lambda: p.radius), num)
        self.emit('ball', dict(k='ok'), o='o%d' % s, w=w, bounded=wb['k'] != 'ray', radius=r, center=c)
    def q_vertices(self, s):
        import numpy as np
        from common import call, result, bounded_wit, deepest, enc, ev, rv
        P = self.mirror[s]['P']
        if not self.regular(s) or not P['A'] or self.flat_rows(P):
            return False
        if P['n'] > 2 and len(P['A']) > 16 or len(P['A']) > 22:
            return False
        wb = bounded_wit(P)
        if wb['k'] == 'bounded':
            x, m = deepest(P)
            if x is None or m < F(1, 200):
                return False
            wb['pt'] = ev(x)
        lst = lambda v: None if v is None else dict(v=[rv(np.asarray(x, dtype=float).reshape(-1)) for x in v])
        self.emit('vertices', result(call(lambda: self.real[s].vertices), lst), o='o%d' % s, w=wb, margin=enc(F(1, 1000)))
    def q_facets(self, s):
        from common import call, result, feas_wit
        P = self.mirror[s]['P']
        if not self.regular(s) or not P['A']:
            return False
        r = result(call(self.real[s].minimal_facets), lambda v: None if v is None else dict())
        self.emit('facets', r, o='o%d' % s, wf=feas_wit(P))
    def q_included(self, s):
        import p04
        from common import call, result, bool_res
        n = self.mirror[s]['P']['n']
        others = [t for t in self.real if self.mirror[t]['P']['n'] == n]
        t = self.rng.choice(others)
        if not self.robust(s):
            return False
        w = p04.incl_wit(self.mirror[s]['P'], self.mirror[t]['P'])
        if w is None:
            return False
        self.emit('incl', result(call(self.real[s].is_included_in, self.real[t]), bool_res), o='o%d' % s, other='o%d' % t, w=w)

    def probes(self, s, many):
        """points around the boundary of every constraint"""
        rng = self.rng
        m = self.mirror[s]
        P = m['P']
        n = P['n']
        pts = [self.ref(s), [F(0)] * n, [F(rng.randint(-64, 64), 8) + (self.t[j] if j < len(self.t) else 0) for j in range(n)]]
        rows = list(range(len(P['A'])))
        rng.shuffle(rows)
        for i in rows[:8 if many else 2]:
            a = P['A'][i]
            from common import clip
            Q = clip(P, 50 + 2 * self.far)
            sol = exact.lp([-v for v in a], Q['A'], Q['b'], Q['C'], Q['d'])
            if sol.status != 'opt':
                continue
            x = sol.x
            pts.append(x)
            nn = exact.dot(a, a)
            if nn == 0:
                continue
            gap = (P['b'][i] - exact.dot(a, x)) / nn       # beyond the constraint
            for e in (rng.choice([F(1, 4 * 10 ** 8), F(1, 10 ** 6), F(1, 10 ** 5)]), F(1, 100), F(1)):
                l1 = max(F(1), sum(abs(v) for v in a))
                pts.append([u + (gap + e * 4 * l1 / nn) * v for u, v in zip(x, a)])
        for i in range(len(P['C'])):
            c = P['C'][i]
            nn = exact.dot(c, c)
            x = self.ref(s)
            fe = exact.feas(P['A'], P['b'], P['C'], P['d'], n)
            if fe[0] == 'pt':
                x = fe[1]
            if nn:
                l1 = max(F(1), sum(abs(v) for v in c))
                for e in (F(1, 4 * 10 ** 8), F(1, 10 ** 6), -F(1, 10 ** 6), F(1, 100), -F(1)):
                    pts.append([u + e * 4 * l1 / nn * v for u, v in zip(x, c)])
        return pts
    def q_contains(self, s, many=False):
        import numpy as np
        from common import call, result, bool_res, ev, enc, fr
        q = []
        p = self.real[s]
        for x in self.probes(s, many):
            xf = np.array([float(v) for v in x])
            if self.same:        # the caller reuses one array
                self.point.setdefault(xf.size, xf)[:] = xf
                xf = self.point[xf.size]
            if self.rng.random() < .8:
                tol, res = F(1e-7), call(p.contains, xf)
            else:
                t = self.rng.choice([1e-7, 1e-5, 1e-3])
                if self.mirror[s]['fp']:
                    t = 1e-7
                tol, res = F(t), call(p.contains, xf, t)
            q.append(dict(x=ev(fr(xf)), tol=enc(tol), r=result(res, bool_res)))
        self.emit('contains', dict(k='ok'), o='o%d' % s, q=q)
    def describe(self, s):
        from common import rpoly_of, pol_enc, same_set, result, call, enc
        got = [None]
        def f(p):
            got[0] = rpoly_of(p)
            return dict(p=pol_enc(got[0]))
        r = result(('ok', self.real[s]), f)
        P = self.mirror[s]['P']
        w = same_set(got[0], P, 64 + 2 * self.far) if got[0] is not None and got[0]['n'] == P['n'] else {}
        self.emit('describe', r, o='o%d' % s, box=enc(64 + 2 * self.far), w=w)
