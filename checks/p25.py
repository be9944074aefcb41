"""P25: malformed requests are refused and leave everything as it was."""
import hist
MODELS = [dict(module='PolyMachine.tla', cfg='MC_PolyMachine.cfg')]

def cases(rng, tier, ctx):
    import scen
    big = tier != 'quick'
    out = []
    for k in scen.KINDS:
        m = 60 if k == 'polyhedra' else 24
        out += [dict(kind=k, seed=rng.randrange(1 << 30)) for _ in range(m * (12 if big else 1))]
    # malformed requests at every point of a history of one or more polyhedra
    H = hist.gen_histories(ctx, 4000 if big else 400, seed=ctx['seed'] * 7 + 4)
    out += [dict(kind='history', hist=h, n=rng.choice([1, 2, 2, 3])) for h in H]
    return out
def run(case, rec):
    import scen
    from digest import Memory
    if case['kind'] == 'history':
        w = hist.World(rec, case['npseed'], case['n'], mem=Memory())
        for st in case['hist']:
            w.step(st)
            if w.rng.random() < .5 and w.real:
                malformed(w)
        for s in sorted(w.real):
            w.q_contains(s, many=True)
            for f in hist.FACTS:
                if w.rng.random() < .4:
                    w.step(dict(op=f, s=s, a=0, b=0))
            w.describe(s)
        return
    from session import Session
    s = Session(rec, case['seed'])
    ops, asks, bads = scen.scenario(case['kind'], s)
    s.emit('call', dict(k='ok'), op='objects-made', edits=[])
    for i in s.rng.sample(range(len(ops)), min(len(ops), s.rng.randint(0, 3))):
        ops[i]()
    for label, fn in asks:
        if s.rng.random() < .7:
            s.ask(label, fn)
    order = list(bads)
    s.rng.shuffle(order)
    for k, (kind, f) in enumerate(order):
        f()
        if k == len(order) // 2:
            s.again()
    s.again()
def malformed(w):
    """one malformed request to a live polyhedron, in the middle of its history"""
    import numpy as np
    from record import call, result
    rng = w.rng
    s = rng.choice(sorted(w.real))
    p, n = w.real[s], w.mirror[s]['P']['n']
    m = lambda r, c: w.keep(np.array([[float(rng.randint(-2, 2)) for _ in range(c)] for _ in range(r)]).reshape(r, c))
    v = lambda k: w.keep(np.array([float(rng.randint(-2, 2)) for _ in range(k)]))
    R = [('ineq-rows', p.add_inequality, (m(2, n), v(1))), ('ineq-rows', p.add_inequality, (m(1, n), v(2))),
         ('ineq-columns', p.add_inequality, (m(1, n + 1), v(1))), ('eq-rows', p.add_equality, (m(2, n), v(1))), ('eq-columns', p.add_equality, (m(1, n + 1), v(1))),
         ('lower-size', p.add_lower_bound, (v(n + 1),)), ('upper-size', p.add_upper_bound, (v(n + 1),)),
         ('bounds-size', p.add_bounds, (v(n), v(n + 1))), ('bounds-size', p.add_bounds, (v(n + 1), v(n))),
         ('lower-indices', p.add_lower_bound, (v(2), w.keep([0]))), ('upper-indices', p.add_upper_bound, (v(3), w.keep([0]))),
         ('bounds-indices', p.add_bounds, (v(2), v(2), w.keep([n - 1]))), ('ineq-indices', p.add_inequality, (m(1, 2), v(1), w.keep([0]))),
         ('index-range', p.add_upper_bound, (v(1), w.keep([n]))), ('index-range', p.add_lower_bound, (v(1), w.keep([n + 2])))]
    kind, f, a = rng.choice(R)
    w.emit('refuse', result(call(f, *a), lambda x: {}), o='o%d' % s, kind=kind)
