"""Runs the cases of one property against the code in /repo and writes the recorded events (one JSON per line)."""
import os, sys, json, importlib, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.dont_write_bytecode = True

def main():
    mod, cases_file, out_file, prog_file = sys.argv[1:5]
    skip = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    import numpy as np
    from record import Recorder
    import record, random
    m = importlib.import_module(mod)
    deadline = float(os.environ.get('VERIF_DEADLINE', '0'))
    with open(cases_file) as f:
        cases = [json.loads(l) for l in f]
    with open(out_file, 'a') as out, open(prog_file, 'a') as prog:
        for i, c in enumerate(cases):
            if i < skip:
                continue
            if Recorder.timeouts >= 2 or (deadline and time.time() > deadline):
                prog.write('stopped %d\n' % i)
                break
            prog.write('start %d\n' % i)
            prog.flush()
            rec = Recorder(c['id'])
            record.DT = random.Random(c.get('npseed', 1))
            record.DT.p = float(os.environ.get('VERIF_INT', '') or record.DT.choice([0, 0, 0, .5, 1]))
            np.random.seed(c.get('npseed', 1) % (2 ** 32))
            try:
                m.run(c, rec)
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
                if any(os.path.realpath(f.filename).startswith(repo + os.sep) for f in tb):
                    # an operation of the code that has to work (construction of the operands) raised
                    rec.emit('died', how='raised-' + type(ex).__name__, tb=traceback.format_exc()[-1500:])
                else:
                    prog.write('error %d %s\n' % (i, json.dumps(traceback.format_exc())))
                    prog.flush()
                    continue
            for e in rec.events:
                out.write(json.dumps(e) + '\n')
            out.flush()
            prog.write('done %d %d\n' % (i, len(rec.events)))
            prog.flush()
        prog.write('end\n')
if __name__ == '__main__':
    main()
