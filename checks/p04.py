"""P04: emptiness, boundedness, inclusion."""
from fractions import Fraction as F
import gen, exact
from gen import fl, pj
MODELS = []

def some_poly(rng, n):
    kind = rng.choice(['bounded', 'bounded', 'cone', 'cone', 'any', 'thin', 'empty'])
    neq = rng.choice([0, 0, 0, 1, 1, 2])
    P = gen.poly(rng, n, rng.randint(1, 2 * n + 3), kind, min(neq, n))
    u = rng.random()
    if u < .04:
        P['A'], P['b'] = [], []
        if n > 1 and rng.random() < .6:      # equalities alone: dependent, contradicting or not
            r = gen.row(rng, n, 2)
            v = gen.dy(rng, -1, 1, 2)
            m = rng.choice([F(1), F(-1), F(2)])
            P['C'] = P['C'] + [r, [m * x for x in r]]
            P['d'] = P['d'] + [v, m * v + rng.choice([F(0), F(1), F(1, 8)])]
    elif u < .08:
        P['A'], P['b'], P['C'], P['d'] = [], [], [], []
    elif u < .12 and P['C']:
        P['C'].append([-x for x in P['C'][0]])
        P['d'].append(-P['d'][0] + rng.choice([F(0), F(1), F(1, 8)]))
    elif u < .2 and n > 1:        # lower-dimensional pieces and lines: opposite rows
        r = gen.row(rng, n, 2)
        v = gen.dy(rng, -1, 1, 2)
        P['A'] += [r, [-x for x in r]]
        P['b'] += [v, -v + rng.choice([F(0), F(1), F(1, 16)])]
    return P

def cases(rng, tier):
    N = 6000 if tier == 'quick' else 15000
    out = []
    for i in range(N):
        n = rng.choice([1, 2, 2, 3, 3, 4])
        P = some_poly(rng, n)
        # a second set related to the first
        u = rng.random()
        if u < .3:
            Q = some_poly(rng, n)
        else:
            # rows implied by P (combinations), possibly tightened / relaxed
            Q = dict(n=n, A=[], b=[], C=[], d=[])
            for _ in range(rng.randint(1, 3)):
                if P['A']:
                    k = [rng.randrange(len(P['A'])) for _ in range(2)]
                    m = [F(rng.randint(0, 2)), F(rng.randint(1, 2))]
                    r = [m[0] * a + m[1] * c for a, c in zip(P['A'][k[0]], P['A'][k[1]])]
                    v = m[0] * P['b'][k[0]] + m[1] * P['b'][k[1]]
                    Q['A'].append(r)
                    Q['b'].append(v + rng.choice([F(0), F(0), F(1, 2), F(0), -F(1, 256)]))
            if P['C'] and rng.random() < .5:
                Q['C'].append([2 * x for x in P['C'][0]])
                Q['d'].append(2 * P['d'][0] + rng.choice([F(0), F(0), F(0), F(1, 256)]))
            if rng.random() < .2:
                Q['A'].append(gen.row(rng, n, 2))
                Q['b'].append(gen.dy(rng, 0, 6, 1))
            if P['A'] and rng.random() < .25:        # a row that is almost one of P's
                k = rng.randrange(len(P['A']))
                r = list(P['A'][k])
                j = rng.randrange(n)
                e = rng.choice([8, 12, 17, 18])
                r[j] += F(rng.choice([-1, 1]), 2 ** e)
                if e > 12:        # alone: together with others it can be a wedge with its apex millions away
                    Q['A'], Q['b'] = [], []
                Q['A'].append(r)
                Q['b'].append(P['b'][k])
        if rng.random() < .1:
            P, Q = Q, P
        if rng.random() < .3:
            st = gen.units(rng, n, .5, .3, .2, F(64))
            P, Q = gen.moved(P, *st), gen.moved(Q, *st)
        out.append(dict(p=pj(P), q=pj(Q)))
    return out

def incl_wit(P, Q):
    from common import row_cert, rows_of, ev
    c = []
    for a, b in rows_of(Q):
        s = exact.lp([-v for v in a], P['A'], P['b'], P['C'], P['d'])
        if s.status == 'inf':
            from rat import ev as e
            c.append(dict(k='farkas', y=ev(s.y), z=ev(s.z)))
            continue
        if s.status == 'opt':
            over = -s.val - b
            if over <= 0:
                c.append(dict(k='dual', y=ev(s.y), z=ev(s.z)))
                continue
            if over < F(1, 10 ** 5):
                return None
            return dict(k='pt', x=ev(s.x))
        g = exact.dot(a, s.ray)
        k = max(F(1), (b + 1 - exact.dot(a, s.x)) / g)
        return dict(k='pt', x=ev([u + k * v for u, v in zip(s.x, s.ray)]))
    return dict(k='rows', c=c)

def run(case, rec):
    from common import pol_exact, pol_enc, make, call, result, feas_wit, bounded_wit, bool_res
    P, Q = pol_exact(case['p']), pol_exact(case['q'])
    for X, key in ((P, 'p'), (Q, 'q')):
        p = make(case[key])
        rec.emit('empty', p=pol_enc(X), w=feas_wit(X), r=result(call(lambda: p.empty), bool_res))
        p = make(case[key])
        rec.emit('bounded', p=pol_enc(X), w=bounded_wit(X), r=result(call(lambda: p.bounded), bool_res))
    for a, b, X, Y in (('p', 'q', P, Q), ('q', 'p', Q, P), ('p', 'p', P, P)):
        w = incl_wit(X, Y)
        if w is not None:
            x, y = make(case[a]), make(case[b])
            rec.emit('incl', p=pol_enc(X), q=pol_enc(Y), w=w, r=result(call(x.is_included_in, y), bool_res))
