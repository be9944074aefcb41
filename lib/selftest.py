"""SelfTest.tla with and without the Java overrides of Rat/LinAlg must print the same values."""
import os, sys, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc
s = tempfile.mkdtemp(prefix='verif_self_')
try:
    c = tlc.compile_overrides(s)
    e = os.path.join(s, 'empty')
    os.makedirs(e)
    out = []
    for cl in (c, e):
        r = tlc.run('SelfTest.tla', 'SelfTest.cfg', cl, s, timeout=900)
        m = re.search(r'<<\s*"SELFTEST",\s*"(.*)"\s*>>', r['text'], re.S)
        if not r['ok'] or not m:
            print(r['text'][-2000:])
            sys.exit(1)
        out.append(re.sub(r'\s', '', m.group(1)))
    print('self test: %d characters of output, %s' % (len(out[0]), 'identical' if out[0] == out[1] else 'DIFFERENT'))
    sys.exit(0 if out[0] == out[1] else 1)
finally:
    shutil.rmtree(s, ignore_errors=True)
