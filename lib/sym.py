"""Random affine expression trees (JSON form, see spec/Symbolic.tla) and their sympy counterparts."""
from fractions import Fraction as F
from rat import enc, dec

def tree(rng, n, depth=3):
    """tree with Fractions"""
    u = rng.random()
    if depth == 0 or u < .15:
        if rng.random() < .25:
            return dict(t='num', v=F(rng.randint(-8, 8), 4))
        return dict(t='var', i=rng.randint(1, n))
    if u < .35:
        return dict(t='mul', k=F(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([1, 1, 2])), a=tree(rng, n, depth - 1))
    if u < .45:
        return dict(t='neg', a=tree(rng, n, depth - 1))
    return dict(t='add' if u < .75 else 'sub', a=tree(rng, n, depth - 1), b=tree(rng, n, depth - 1))
def affine(t, n):
    k = t['t']
    if k == 'var':
        return [F(int(j + 1 == t['i'])) for j in range(n)], F(0)
    if k == 'num':
        return [F(0)] * n, t['v']
    a = affine(t['a'], n)
    if k == 'neg':
        return [-v for v in a[0]], -a[1]
    if k == 'mul':
        return [t['k'] * v for v in a[0]], t['k'] * a[1]
    b = affine(t['b'], n)
    s = 1 if k == 'add' else -1
    return [u + s * v for u, v in zip(a[0], b[0])], a[1] + s * b[1]
def with_const(t, c):
    """t shifted by a constant"""
    if c == 0:
        return t
    return dict(t='add', a=t, b=dict(t='num', v=c)) if c > 0 else dict(t='sub', a=t, b=dict(t='num', v=-c))
def of_row(rng, a, c, n):
    """a tree with the given coefficients and constant, terms in random order"""
    terms = [dict(t='mul', k=v, a=dict(t='var', i=j + 1)) if v != 1 else dict(t='var', i=j + 1) for j, v in enumerate(a) if v]
    rng.shuffle(terms)
    if c:
        terms.insert(rng.randint(0, len(terms)), dict(t='num', v=c))
    if not terms:
        terms = [dict(t='num', v=F(0))]
    out = terms[0]
    for t in terms[1:]:
        out = dict(t='add', a=out, b=t)
    return out
def js(t):
    """encoded for the trace"""
    return {k: (js(v) if isinstance(v, dict) else enc(v) if isinstance(v, F) else v) for k, v in t.items()}
def number(v):
    """exact number, written as a fraction or as a float"""
    import sympy as sp, record
    if v.denominator != 1 and v.denominator & (v.denominator - 1) == 0 and record.DT.random() < .2:
        return sp.Float(float(v))
    return sp.Rational(v.numerator, v.denominator)
def expr(t, xs):
    """sympy expression over the symbols xs"""
    import sympy as sp
    k = t['t']
    if k == 'var':
        return xs[t['i'] - 1]
    if k == 'num':
        return number(F(t['v']))
    a = expr(t['a'], xs)
    if k == 'neg':
        return -a
    if k == 'mul':
        return number(F(t['k'])) * a
    b = expr(t['b'], xs)
    return a + b if k == 'add' else a - b
