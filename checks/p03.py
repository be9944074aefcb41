"""P03: queries and derived objects never disturb existing ones."""
import hist
MODELS = [dict(module='PolyMachine.tla', cfg='MC_PolyMachine.cfg'),
          dict(module='PolyMachine.tla', cfg='MC_PolyMachine_bad_inplace.cfg', expect='Frame')]

def cases(rng, tier, ctx):
    import scen
    big = tier != 'quick'
    H = hist.gen_histories(ctx, 6000 if big else 700, seed=ctx['seed'] * 7 + 3)
    out = [dict(kind='history', hist=h, n=rng.choice([1, 2, 2, 3])) for h in H]
    for k in scen.KINDS:
        out += [dict(kind=k, seed=rng.randrange(1 << 30)) for _ in range(400 if big else 30)]
    return out
def run(case, rec):
    import scen, random
    from digest import Memory
    if case['kind'] == 'history':
        w = hist.World(rec, case['npseed'], case['n'], mem=Memory())
        for st in case['hist']:
            w.step(st)
        return
    from session import Session
    s = Session(rec, case['seed'])
    ops, _, _ = scen.scenario(case['kind'], s)
    s.emit('call', dict(k='ok'), op='objects-made', edits=[])
    seq = list(range(len(ops)))
    s.rng.shuffle(seq)
    seq += [s.rng.randrange(len(ops)) for _ in range(6)]
    for i in seq:
        ops[i]()
