"""Recording of calls of the real code: every call becomes one event with its (JSON) arguments and its result."""
import os, sys, signal, json, contextlib
import numpy as np
from rat import enc, rnd, ev, em, rv, rm, NonFinite, fr
CALL_LIMIT = int(os.environ.get('VERIF_CALL_LIMIT', '60'))

class CallTimeout(BaseException):
    pass

def _alarm(*a):
    raise CallTimeout()

def call(fn, *a, **k):
    """('ok', value) | ('exc', type name) | ('timeout',)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CALL_LIMIT)
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn):
            v = fn(*a, **k)
        return ('ok', v)
    except CallTimeout:
        Recorder.timeouts += 1
        return ('timeout', None)
    except MemoryError:
        raise
    except Exception as e:
        return ('exc', e)
    finally:
        signal.alarm(0)

def result(res, f):
    """JSON result of a call; f(value) -> dict of encoded fields, or None for an absent answer"""
    if res[0] == 'timeout':
        return {'k': 'timeout'}
    if res[0] == 'exc':
        return {'k': 'exc', 't': type(res[1]).__name__}
    try:
        d = f(res[1])
    except NonFinite:
        return {'k': 'nonfinite'}
    except Exception as e:       # the value does not have the documented form
        return {'k': 'malformed', 't': type(e).__name__ + ': ' + str(e)[:80]}
    if d is None:
        return {'k': 'none'}
    d = dict(d)
    d['k'] = 'ok'
    return d

class Recorder:
    timeouts = 0
    def __init__(self, cid):
        self.cid, self.events = cid, []
    def emit(self, ev_, **kw):
        kw['ev'] = ev_
        kw['id'] = '%s.%d' % (self.cid, len(self.events))
        self.events.append(kw)

DT = None       # random source deciding the types of the arrays of the current case (None: floats)
def typed(a):
    """callers may pass arrays of integers where the numbers are integers"""
    if DT is not None and a.size and DT.random() < DT.p and np.all(a == np.round(a)) and np.max(np.abs(a)) < 2 ** 31:
        return a.astype(int)
    return a
def arr(M, n=None):
    """list of lists -> array (with n columns when there are no rows)"""
    a = np.array(M, dtype=float)
    if a.size == 0 and n is not None:
        return np.zeros((len(M), n))
    return typed(a)
def vec(v):
    return typed(np.array(v, dtype=float).reshape(-1))

def workspace(case):
    """vectors as a caller makes them: new ones, or (every other case) always the same array overwritten with the new numbers"""
    own = {}
    def ws(v, name=''):
        a = np.array([float(x) for x in v])
        if case['npseed'] % 2 == 0:
            return vec(a)
        k = (name, a.size)
        if k not in own:
            own[k] = a
        own[k][:] = a
        return own[k]
    return ws
