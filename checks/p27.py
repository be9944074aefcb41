"""P27: answers depend on the question and the numbers handed over, not on what was asked before."""
MODELS = [dict(module='Requests.tla', cfg='MC_Requests.cfg', args=('-workers', '4')), dict(module='Requests.tla', cfg='MC_Requests_none.cfg', args=('-workers', '4')),
          dict(module='Requests.tla', cfg='MC_Requests_deep.cfg', args=('-workers', '4'), thorough=True)] + \
         [dict(module='Requests.tla', cfg='MC_Requests_bad_%s.cfg' % k, expect=e)
          for k, e in (('identity', 'Right'), ('shared', 'Right'), ('coarse', 'Right'), ('lent', 'Right'), ('buffer', 'Kept'))]

def cases(rng, tier, ctx):
    import asking
    from hist import gen_histories
    kinds = list(asking.KINDS) + ['explicit', 'explicit', 'mpqp', 'mpc', 'pwa']
    m = 70 if tier == 'quick' else 500
    H = gen_histories(ctx, m * len(kinds), 'Gen_Requests.cfg', depth=15, seed=ctx['seed'] * 7 + 27, module='Requests.tla')
    return [dict(kind=k, seed=rng.randrange(1 << 30), hist=h) for h, k in zip(H, kinds * m)]
def forked(f):
    """f() -> JSON-able, in a process of its own"""
    import os, json, traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            d = json.dumps(dict(v=f()))
        except BaseException:
            d = json.dumps(dict(err=traceback.format_exc()[-2000:]))
        with os.fdopen(w, 'w') as o:
            o.write(d)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as i:
        d = i.read()
    os.waitpid(pid, 0)
    return json.loads(d) if d else None
def broken(r, rec):
    import os
    if r is None:
        rec.emit('died', how='crash')
    elif os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep in r['err']:      # building the objects has to work
        rec.emit('died', how='raised')
    else:
        raise RuntimeError(r['err'])
def run(case, rec):
    import random, time
    import numpy as np
    import asking
    from session import Session
    from common import call, result, ev
    import pympc.control.controllers, pympc.optimization.programs       # loaded (not used) before the processes split
    rng = random.Random(case['seed'])
    what = asking.KINDS[case['kind']](rng)
    pool = what['pool']
    edges = 'label' in what and rng.random() < .75
    if edges and rng.random() < .6:     # labels are those of the first object
        pool = pool[:len(pool) // 2]
    qs = rng.sample(pool, min(2, len(pool)))
    if len(qs) > 1 and rng.random() < .3:       # the same question to two objects
        same = [q for q in pool if q[0] == qs[0][0]]
        if len(same) > 1:
            qs = rng.sample(same, 2)
    qs = (qs + qs)[:2]
    vals = asking.values(rng, what['shape'], what['k'], what.get('sym'))
    if edges:       # two almost equal arrays on the two sides of a boundary
        far = vals[1] + np.array([rng.choice([-2., -1., -.5, .5, 1., 2.]) for _ in range(vals[1].size)]).reshape(vals[1].shape)
        d = rng.choice([2. ** -7, 2. ** -10, 2. ** -14])
        def edge():
            p = call(asking.straddle, what['label'], what['make'](), vals[1], far, d)
            return [x.tolist() for x in p[1]] if p[0] == 'ok' and p[1] is not None else None
        r = forked(edge)
        if r is not None and r.get('v'):
            vals[1:] = [np.array(x) for x in r['v']]
            rng.shuffle(vals)
    def rec_ans(v):
        def f(v):
            w = Session.flat(v)
            return dict(t=[x for x in w if isinstance(x, str)], v=ev([x for x in w if not isinstance(x, str)]))
        return result(v, f)
    slot = {1: 1, 2: 1}
    need = []
    for st in case['hist']:
        if st['op'] == 'write':
            slot[st['a']] = st['v']
        elif st['op'] == 'ask' and (st['q'], slot[st['a']]) not in need:
            need.append((st['q'], slot[st['a']]))
    rec.emit('begin')
    for q, v in need:
        def ref():
            o = what['make']()
            return rec_ans(call(qs[q - 1][1], o, vals[v - 1].copy()))
        r = forked(ref)
        if r is None or 'err' in r:
            return broken(r, rec)
        rec.emit('req', op='ref', q=q, v=v, r=r['v'])
    def history():
        out = []
        o = what['make']()
        own = {a: vals[0].copy() for a in (1, 2)}
        for a in (1, 2):
            out.append(dict(op='write', a=a, v=1))
        held = []
        for st in case['hist']:
            if st['op'] == 'write':
                own[st['a']][...] = vals[st['v'] - 1]
                out.append(dict(op='write', a=st['a'], v=st['v']))
            elif st['op'] == 'ask':
                name, f, t = qs[st['q'] - 1]
                v = call(f, o, own[st['a']])
                held.append((v, name))
                out.append(dict(op='ask', a=st['a'], q=st['q'], what=name, t=t, r=rec_ans(v)))
            else:
                for x in asking.arrays(held[-1][0][1]):
                    x[...] = 12345.
                out.append(dict(op='scribble'))
        for i, (v, name) in enumerate(held):
            out.append(dict(op='reread', i=i + 1, what=name, r=rec_ans(v)))
        return out
    r = forked(history)
    if r is None or 'err' in r:
        return broken(r, rec)
    for e in r['v']:
        rec.emit('req', **e)
