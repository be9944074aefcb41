"""bin/check: generate cases, run them on the real code, validate the recorded traces with TLC, write the evidence."""
import os, sys, json, time, random, shutil, subprocess, tempfile, importlib, argparse, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
sys.dont_write_bytecode = True
import tlc
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
CASE_LIMIT = int(os.environ.get('VERIF_CASE_LIMIT', '200'))      # seconds without progress on one case

class Machinery(Exception):
    pass

def worker_env(deadline):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', VERIF_DEADLINE=str(deadline),
             MPLCONFIGDIR=os.environ.get('VERIF_SCRATCH', '/tmp'))
    return e

def run_cases(mod, cases, scratch, deadline):
    """distribute the cases over worker processes; returns the list of trace files and statistics"""
    n = max(1, min(NPROC, len(cases)))
    jobs = []
    for k in range(n):
        part = cases[k::n]
        cf, of, pf = [os.path.join(scratch, '%s_%d.json' % (x, k)) for x in ('cases', 'trace', 'prog')]
        with open(cf, 'w') as f:
            for c in part:
                f.write(json.dumps(c) + '\n')
        open(of, 'w').close()
        open(pf, 'w').close()
        jobs.append(dict(cf=cf, of=of, pf=pf, part=part, skip=0, p=None, size=0, last=time.time(), restarts=0))
    def launch(j):
        j['err'] = open(j['pf'] + '.err', 'a')
        j['p'] = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), mod, j['cf'], j['of'], j['pf'], str(j['skip'])],
                                  env=worker_env(deadline), stdout=j['err'], stderr=j['err'], cwd=scratch)
        j['last'] = time.time()
    for j in jobs:
        launch(j)
    hung = []
    while True:
        alive = False
        for j in jobs:
            if j['p'] is None:
                continue
            sz = os.path.getsize(j['pf'])
            if sz != j['size']:
                j['size'], j['last'] = sz, time.time()
            rc = j['p'].poll()
            stuck = rc is None and time.time() - j['last'] > CASE_LIMIT
            if rc is None and not stuck:
                alive = True
                continue
            if stuck:
                j['p'].kill()
                j['p'].wait()
            lines = open(j['pf']).read().splitlines()
            ended = bool(lines) and lines[-1] == 'end'
            if ended and not stuck:
                j['p'] = None
                continue
            # the process died (or hung) inside a case: that is an answer of the code as well
            cur = [int(l.split()[1]) for l in lines if l.startswith('start')]
            if not cur:
                raise Machinery('worker did not start: ' + open(j['pf'] + '.err').read()[-2000:])
            c = j['part'][cur[-1]]
            hung.append((c, 'timeout' if stuck else 'crash', rc))
            with open(j['of'], 'a') as f:
                f.write(json.dumps(dict(ev='died', id=c['id'] + '.x', how='timeout' if stuck else 'crash')) + '\n')
            j['restarts'] += 1
            if j['restarts'] > 1:
                j['p'] = None
                continue
            j['skip'] = cur[-1] + 1
            launch(j)
            alive = True
        if not alive:
            break
        time.sleep(0.1)
    errors, done, stopped = [], 0, 0
    for j in jobs:
        for l in open(j['pf']).read().splitlines():
            if l.startswith('error'):
                _, i, msg = l.split(' ', 2)
                errors.append((j['part'][int(i)]['id'], json.loads(msg)))
            elif l.startswith('done'):
                done += 1
            elif l.startswith('stopped'):
                stopped += 1
    return [j['of'] for j in jobs], dict(errors=errors, done=done, stopped=stopped, hung=hung)

def validate(traces, classes, scratch, deadline, cfg='Trace.cfg', module='Trace.tla'):
    """check the recorded traces against the specification; returns (bad clauses, states, events).
    A step for which the specification has no meaning at all (TLC cannot evaluate it: the answer has a form no transition
    produces) is a step the specification does not allow: the case is reported and the replay goes on with the next case."""
    pat = re.compile(r'<<\s*"BAD",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>')
    bad, states, events = [], 0, 0
    todo = [(t, [l for l in open(t)], 0) for t in traces]
    while todo:
        hs, nxt = [], []
        for t, ls, k in todo:
            if ls:
                hs.append((t, ls, k, tlc.start(module, cfg, classes, scratch, env={'VTRACE': t})))
        for t, ls, k, h in hs:
            n = len(ls)
            r = tlc.finish(h, deadline - time.time())
            stuck = None
            if not r['timeout'] and not r['ok'] and r.get('states') and k < 20 and re.search(r'Attempted to|unable to fingerprint|evaluating|CASE', r['text']):
                stuck = min(r['states'] - 1, n - 1)
            if (r['timeout'] or not r['ok']) and stuck is None:
                for x in hs:
                    if x[3]['p'].poll() is None:
                        x[3]['p'].kill()
                raise Machinery('TLC %s on %s:\n%s' % ('timed out' if r['timeout'] else 'failed', t, r['text'][-3000:]))
            if stuck is None and r.get('states', 0) != n + 1:
                raise Machinery('TLC did not consume the trace %s (%s of %d)' % (t, r.get('states'), n))
            bad += [(m.group(1), m.group(3)) for m in pat.finditer(r['text'])]
            states += r['states']
            if stuck is None:
                events += n
                continue
            case = lambda l: json.loads(l)['id'].rsplit('.', 1)[0]
            cid = case(ls[stuck])
            bad.append((json.loads(ls[stuck])['id'], 'not-a-step-of-the-specification'))
            i = r['text'].find('Attempted to')
            print('no such step in the specification: %s %s' % (json.loads(ls[stuck])['id'], r['text'][i:i+300].replace('\n', ' ')))
            rest = stuck + 1
            while rest < n and case(ls[rest]) == cid:
                rest += 1
            events += stuck
            t2 = t + '.r'
            with open(t2, 'w') as f:
                f.writelines(ls[rest:])
            nxt.append((t2, ls[rest:], k + 1))
        todo = nxt
    return bad, states, events

def event_index(traces):
    idx = {}
    for t in traces:
        for l in open(t):
            e = json.loads(l)
            idx[e['id']] = e
    return idx

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) case=(\S+) clause=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out

def models(names, classes, scratch, deadline):
    """run design-level models; each entry = dict(name, module, cfg, expect, args).  expect: None (no error) or the name
    of the invariant/property that has to fail (sanity check that the model can see the defect)"""
    out = []
    hs = [(m, tlc.start(m['module'], m['cfg'], classes, scratch, env=m.get('env'), args=m.get('args', ()), heap='2g'))
          for m in names]
    for m, h in hs:
        r = tlc.finish(h, deadline - time.time())
        exp = m.get('expect')
        good = (r['ok'] if exp is None else (exp in r['violated']))
        if not good:
            raise Machinery('model %s: expected %s, got %s\n%s' % (m['cfg'], exp or 'no error', r['violated'], r['text'][-3000:]))
        out.append(dict(model=m['cfg'], expected_to_fail=exp, states=r.get('states', 0), transitions=r.get('transitions', 0)))
    return out

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-models', action='store_true')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % a.property)
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        return check(a, tier, t0, t0 + budget, scratch)
    except Machinery as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        if a.keep:
            print('scratch:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)

def check(a, tier, t0, deadline, scratch):
    pid = a.property
    mod = importlib.import_module(pid.lower())
    classes = tlc.compile_overrides(scratch)
    rng = random.Random('%s/%d/%s' % (pid, a.seed, tier))
    ctx = dict(classes=classes, scratch=scratch, tier=tier, seed=a.seed, deadline=deadline)
    if a.replay:
        cases = [json.load(open(a.replay))['case']]
    else:
        cases = mod.cases(rng, tier, ctx) if mod.cases.__code__.co_argcount > 2 else mod.cases(rng, tier)
        for i, c in enumerate(cases):
            c.setdefault('id', '%s-%05d' % (pid, i))
            c.setdefault('npseed', (a.seed * 1000003 + i) % (2 ** 31))
    if os.environ.get('VERIF_SUBSAMPLE'):      # development only
        cases = cases[::int(os.environ['VERIF_SUBSAMPLE'])]
    t1 = time.time()
    ms = []
    if not a.replay and not a.no_models and getattr(mod, 'MODELS', None):
        ms = models([m for m in mod.MODELS if tier == 'thorough' or not m.get('thorough')], classes, scratch, deadline)
    t2 = time.time()
    traces, st = run_cases(pid.lower(), cases, scratch, deadline - 240)
    t3 = time.time()
    if st['errors']:
        for c, m in st['errors'][:3]:
            print('driver error in case %s\n%s' % (c, m))
        if len(st['errors']) > 0.5 * len(cases):
            raise Machinery('%d driver errors' % len(st['errors']))
    bad, states, events = validate(traces, classes, scratch, deadline)
    t4 = time.time()
    wit = [b for b in bad if b[1].startswith('witness')]
    real = [b for b in bad if not b[1].startswith('witness')]
    if wit:
        idx = event_index(traces)
        for b in wit[:5]:
            print('witness rejected by the specification:', b, json.dumps(idx.get(b[0]))[:1500])
        if not real:
            raise Machinery('%d witnesses rejected' % len(wit))
    byid = {c['id']: c for c in cases}
    known = known_findings(pid)
    viol = {}
    for eid, clause in real:
        cid = eid.rsplit('.', 1)[0]
        tag = byid.get(cid, {}).get('tag', cid)
        k = next((k for k in known if k[0] == tag and k[1] == clause), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
            continue
        viol.setdefault(cid, []).append((eid, clause))
    samples = []
    for t in traces[:1]:
        for l in list(open(t))[:3]:
            samples.append(json.loads(l) if len(l) < 3000 else l[:3000])
    kinds = {}
    for t in traces:
        for l in open(t):
            m = re.search(r'"ev": "([^"]*)"', l)
            kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
    rep = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    if not a.replay:
        e = dict(property=pid, tier=tier, seed=a.seed, level='model_checking',
                 coverage=dict(states=states + sum(m['states'] for m in ms),
                               transitions=events + sum(m['transitions'] for m in ms),
                               traces_validated_against_impl=st['done'], events=events, events_by_kind=kinds,
                               cases=len(cases), design_models=ms, samples=samples,
                               stages_s=dict(generate=round(t1 - t0, 1), models=round(t2 - t1, 1), execute=round(t3 - t2, 1),
                                             validate=round(t4 - t3, 1))),
                 assumptions=['exact rational arithmetic of spec/Rat.java equals spec/Rat.tla (SelfTest.tla)',
                              'numerical tolerances as defined in the specification',
                              'traces cover the generated cases only'],
                 wall_s=round(time.time() - t0, 1), violations=len(viol))
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(e, f, indent=1)
    if not viol:
        if st['errors']:
            raise Machinery('%d driver errors' % len(st['errors']))
        if not a.replay and st['done'] < len(cases) and not st['stopped']:
            raise Machinery('only %d of %d cases ran' % (st['done'], len(cases)))
        if st['stopped'] and st['done'] < 0.5 * len(cases):
            raise Machinery('out of time: only %d of %d cases ran' % (st['done'], len(cases)))
        print('OK property=%s cases=%d events=%d states=%d wall=%.1fs' % (pid, len(cases), events, states, time.time() - t0))
        return 0
    idx = event_index(traces)
    first = None
    for n, (cid, l) in enumerate(sorted(viol.items(), key=lambda kv: len(json.dumps(byid.get(kv[0], {})))) [:5]):
        path = os.path.join(rep, '%s_%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=byid.get(cid), clauses=l, events=[idx.get(x[0]) for x in l]), f)
        first = first or path
        print('  case %s: %s' % (cid, ', '.join(sorted(set('%s@%s' % (c, i.rsplit('.', 1)[1]) for i, c in l)))[:300]))
    print('violating cases: %d of %d' % (len(viol), len(cases)))
    print('VIOLATION property=%s replay=%s' % (pid, first))
    return 1

if __name__ == '__main__':
    sys.exit(main())
