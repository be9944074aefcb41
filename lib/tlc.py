"""Running TLC."""
import os, re, subprocess, shutil, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'

class TLCError(Exception):
    pass

def compile_overrides(scratch):
    out = os.path.join(scratch, 'classes')
    os.makedirs(out, exist_ok=True)
    src = [os.path.join(SPEC, f) for f in sorted(os.listdir(SPEC)) if f.endswith('.java')]
    r = subprocess.run(['javac', '-nowarn', '-cp', JAR, '-d', out] + src, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise TLCError('javac: ' + r.stdout)
    return out

def command(module, cfg, classes, meta, args=(), heap='1500m'):
    return (['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-XX:TieredStopAtLevel=4',
             '-Dtlc2.TLC.stopAfter=0', '-Djava.io.tmpdir=' + meta, '-cp', ':'.join([classes, JAR, COMM]), 'tlc2.TLC', '-noTE',
             '-metadir', meta, '-config', cfg] + list(args) + [module])

def start(module, cfg, classes, scratch, env=None, args=(), heap='1500m'):
    """start TLC on a specification in spec/; returns a handle"""
    meta = tempfile.mkdtemp(prefix='meta_', dir=scratch)
    out = open(os.path.join(meta, 'out.txt'), 'w+')
    e = dict(os.environ)
    e.update(env or {})
    cmd = command(module, cfg, classes, meta, args, heap)
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    return dict(p=p, out=out, meta=meta, t0=time.time(), cmd=cmd)

def finish(h, timeout):
    try:
        h['p'].wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        h['p'].kill()
        h['p'].wait()
        h['timeout'] = True
    h['out'].flush()
    h['out'].seek(0)
    txt = h['out'].read()
    h['out'].close()
    shutil.rmtree(h['meta'], ignore_errors=True)
    r = dict(text=txt, rc=h['p'].returncode, timeout=h.get('timeout', False), wall=time.time() - h['t0'],
             ok='Model checking completed. No error has been found' in txt or 'Simulation complete' in txt)
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?,? ([\d,]+) distinct states found', txt)
    if m:
        r['states'] = int(m[-1][1].replace(',', ''))
        r['transitions'] = int(m[-1][0].replace(',', ''))
    r['violated'] = re.findall(r'(?:Invariant|property) (\w+) is violated', txt) + \
        (['deadlock'] if 'Deadlock reached' in txt else [])
    return r

def run(module, cfg, classes, scratch, env=None, args=(), timeout=600, heap='3g'):
    return finish(start(module, cfg, classes, scratch, env, args, heap), timeout)
