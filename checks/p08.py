"""P08: normalisation and redundancy removal."""
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = [dict(module='Redundancy.tla', cfg='MC_Redundancy.cfg'),
          dict(module='Redundancy.tla', cfg='MC_Redundancy_bad_all.cfg', expect='Kept'),
          dict(module='Redundancy.tla', cfg='MC_Redundancy_bad_weak.cfg', expect='Minimal')]
BOX = 64

def model_cases(rng, tier, ctx):
    """the systems of Redundancy.tla (all the systems of at most four half-lines), rows possibly rescaled"""
    from hist import gen_histories
    H = gen_histories(ctx, 0, 'Gen_Redundancy.cfg', simulate=False, module='Redundancy.tla')
    H.sort(key=str)
    if tier == 'quick':
        H = rng.sample(H, 800)
    out = []
    for rows in H:
        k = [rng.choice([F(1), F(1), F(2), F(1, 2), F(3)]) for _ in rows]
        out.append(dict(p=pj(dict(n=1, A=[[a * r['s']] for a, r in zip(k, rows)], b=[a * r['b'] for a, r in zip(k, rows)], C=[], d=[]))))
    return out
def cases(rng, tier, ctx):
    N = 4000 if tier == 'quick' else 8000
    out = []
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3])
        neq = rng.choice([0, 0, 0, 1, 1])
        neq = min(neq, n - 1)
        kind = rng.choice(['bounded'] * 4 + ['cone', 'cone', 'any', 'empty'])
        P = gen.poly(rng, n, rng.randint(n + 1, 2 * n + 5), kind, neq)
        if rng.random() < .5 and P['A']:            # rows implied by others: combinations, weakly redundant or slack
            for _ in range(rng.randint(1, 3)):
                k = [rng.randrange(len(P['A'])) for _ in range(2)]
                m = [F(rng.randint(0, 2)), F(rng.randint(1, 2))]
                r = [m[0] * a + m[1] * c for a, c in zip(P['A'][k[0]], P['A'][k[1]])]
                v = m[0] * P['b'][k[0]] + m[1] * P['b'][k[1]] + rng.choice([F(0), F(0), F(1, 4), F(1, 512), -F(1, 512), -F(1, 4096)])
                j = rng.randint(0, len(P['A']))
                P['A'].insert(j, r)
                P['b'].insert(j, v)
        if rng.random() < .3:
            P = gen.place(rng, P, .4, .3, .2, F(32))
        if rng.random() < .25 and kind == 'bounded' and not neq and n > 1:     # facets that are almost parallel
            P = gen.moved(P, [F(8)] * n, [F(rng.randint(-16, 16)) for _ in range(n)])
            for _ in range(rng.randint(1, 2)):
                P = gen.bend(rng, P, 10, 18) or P
        out.append(dict(p=pj(P)))
    return out + model_cases(rng, tier, ctx)

def select(P, Q):
    """indices (1-based) of rows of P equal to the rows of Q, in order"""
    out, used = [], set()
    for r, v in zip(Q['A'], Q['b']):
        k = next((i for i in range(len(P['A'])) if i not in used and P['A'][i] == r and P['b'][i] == v), None)
        if k is None:
            return []
        used.add(k)
        out.append(k + 1)
    return out

def minimal_wit(P, kept):
    from common import row_cert
    if any(k < 1 or k > len(P['A']) for k in kept):
        return {}
    q = dict(n=P['n'], A=[P['A'][k - 1] for k in kept], b=[P['b'][k - 1] for k in kept], C=P['C'], d=P['d'])
    drop = [row_cert(q, a, b + F(1, 10 ** 6)) for a, b in zip(P['A'], P['b'])]
    need = []
    for k in range(len(kept)):
        z = dict(q, A=q['A'][:k] + q['A'][k + 1:], b=q['b'][:k] + q['b'][k + 1:])
        need.append(row_cert(z, q['A'][k], q['b'][k]))
    return dict(drop=drop, need=need)

def borderline(P):
    """some row is violated by the others by less than 1e-5 but more than 0 (outside the stated tolerance)"""
    for i in range(len(P['A'])):
        z = dict(P, A=P['A'][:i] + P['A'][i + 1:], b=P['b'][:i] + P['b'][i + 1:])
        s = exact.lp([-v for v in P['A'][i]], z['A'], z['b'], z['C'], z['d'])
        if s.status == 'opt' and 0 < -s.val - P['b'][i] < F(1, 10 ** 5):
            return True
    return False

def run(case, rec):
    from common import pol_exact, pol_enc, make, call, result, same_set, poly_of, rpoly_of, finite, enc, feas_wit, NonFinite
    P = pol_exact(case['p'])
    if borderline(P):
        return
    p = make(case['p'])
    got = [None]
    def fields(_):
        got[0] = rpoly_of(p)
        return dict(p=pol_enc(got[0]))
    r = result(call(p.normalize), fields)
    rec.emit('normalize', p=pol_enc(P), box=enc(BOX), r=r, w=same_set(got[0], P, BOX) if got[0] else {})
    wf = feas_wit(P)
    p = make(case['p'])
    res = call(p.minimal_facets)
    r = result(res, lambda v: None if v is None else dict(v=[int(i) + 1 for i in v]))
    rec.emit('minimal', op='facets', p=pol_enc(P), wf=wf, r=r, w=minimal_wit(P, r['v']) if r['k'] == 'ok' and wf['k'] == 'pt' else {})
    p = make(case['p'])
    def fields2(_):
        if not finite(p):
            raise NonFinite()
        got[0] = poly_of(p)
        return dict(p=pol_enc(got[0]))
    r = result(call(p.remove_redundant_inequalities), fields2)
    sel = select(P, got[0]) if r['k'] == 'ok' else []
    rec.emit('minimal', op='remove', p=pol_enc(P), wf=wf, r=r, sel=sel,
             w=minimal_wit(P, sel) if r['k'] == 'ok' and wf['k'] == 'pt' else {})
