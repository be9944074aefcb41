"""P01: membership follows from the constraints given, whatever the history."""
import hist
MODELS = [dict(module='PolyMachine.tla', cfg='MC_PolyMachine.cfg')]

def cases(rng, tier, ctx):
    H = hist.gen_histories(ctx, 700 if tier == 'quick' else 5000, seed=ctx['seed'] * 7 + 2)
    E = set(hist.EDITS) | {'new', 'copy', 'intersection', 'project', 'normalize', 'remove', 'contains'}
    out = []
    for h in H:
        h = [s for s in h if s['op'] in E]
        out.append(dict(hist=h, n=rng.choice([1, 2, 2, 3, 3, 4])))
    ops = list(hist.EDITS)
    for _ in range(700 if tier == 'quick' else 5000):       # constructions and additions only
        h = [dict(op='new', s=1, a=0, b=0)] + [dict(op=rng.choice(ops), s=1, a=0, b=0) for _ in range(rng.randint(0, 3))]
        out.append(dict(hist=h, n=rng.choice([1, 2, 3, 3, 4, 5]), fine=rng.random() < .5, far=rng.choice([0, 0, 0, 100, 400])))
    return out

def run(case, rec):
    w = hist.World(rec, case['npseed'], case['n'], fine=case.get('fine', False), far=case.get('far', 0))
    for st in case['hist']:
        w.step(st)
        if w.rng.random() < .2 and st['s'] in w.real:
            w.q_contains(st['s'])
    for s in sorted(w.real):
        w.q_contains(s, many=True)
        w.describe(s)
