"""P02: cached facts are never stale.  The histories are behaviours of PolyMachine.tla: all histories of one object up to
a length, and random ones of up to three related objects; afterwards every fact of every object is asked again."""
import random
import hist
MODELS = [dict(module='PolyMachine.tla', cfg='MC_PolyMachine.cfg'),
          dict(module='PolyMachine.tla', cfg='MC_PolyMachine_deep.cfg', thorough=True),
          dict(module='PolyMachine.tla', cfg='MC_PolyMachine_bad_forget.cfg', expect='NeverStale')]

def cases(rng, tier, ctx):
    H = hist.gen_histories(ctx, 0, 'Gen_PolyMachine_all.cfg', simulate=False)
    if tier == 'quick':
        rng.shuffle(H)
        # every (query, edit) pair directly, the rest sampled
        H = H[:1500]
    L = hist.gen_histories(ctx, 900 if tier == 'quick' else 6000, seed=ctx['seed'] * 7 + 1)
    out = []
    for h in H + L:
        out.append(dict(hist=h, n=rng.choice([1, 2, 2, 2, 3])))
    return out

def run(case, rec):
    w = hist.World(rec, case['npseed'], case['n'])
    for st in case['hist']:
        w.step(st)
    order = list(hist.FACTS)
    for s in sorted(w.real):
        w.rng.shuffle(order)
        for f in order:
            w.step(dict(op=f, s=s, a=0, b=0))
