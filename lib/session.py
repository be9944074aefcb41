"""A history of calls over all parts of the public interface; everything alive is watched (frame conditions, P03, P25)."""
import random
import numpy as np
from digest import Memory
from record import call, result
from rat import ev, enc, rv, rnd

class Session:
    def __init__(self, rec, seed, strict=False):
        self.strict = strict
        self.rec, self.rng, self.mem = rec, random.Random(seed), Memory()
        self.asked = []
        rec.emit('begin')
    def give(self, x):
        return self.mem.add(x)
    def arr(self, M, ints=None):
        """caller-owned array; integer or read as a view now and then"""
        a = np.array(M, dtype=float)
        if a.size and np.all(a == np.round(a)) and (self.rng.random() < .3 if ints is None else ints):
            a = a.astype(int)
        elif a.ndim == 2 and self.rng.random() < .2:
            a = np.asfortranarray(a)
        return self.give(a)
    def _args(self, args):
        for a in args:
            if isinstance(a, (np.ndarray, dict, list)) or type(a).__module__.startswith('pympc'):
                self.give(a)
    def emit(self, ev_, r, **kw):
        pre = self.mem.pre()
        self.rec.emit(ev_, r=r, pre=pre, mem=self.mem.snap(), **kw)
    def do(self, op, fn, *args, edits=(), may_fail=False, **kw):
        """a well-formed call; returns its value (registered too)"""
        self._args(args)
        self._args(kw.values())
        pre = self.mem.pre()
        res = call(fn, *args, **kw)
        r = result(res, lambda v: {})
        if (may_fail or not self.strict) and r['k'] == 'exc':
            r = dict(k='ok')
        v = res[1] if res[0] == 'ok' else None
        # names of the things this call is meant to change
        names = [self.mem.name(x) for x in edits]
        after = self.mem.snap()
        if v is not None and not isinstance(v, (bool, int, float, str, np.bool_, np.integer, np.floating)):
            self.give(v)
        post = self.mem.pre()
        self.rec.emit('call', op=op, r=r, edits=names, pre=pre + post, mem=after + post)
        return v
    def bad(self, kind, fn, *args, **kw):
        """a request that violates a documented precondition"""
        self._args(args)
        self._args(kw.values())
        pre = self.mem.pre()
        r = result(call(fn, *args, **kw), lambda v: {})
        self.rec.emit('refuse', kind=kind, r=r, pre=pre, mem=self.mem.snap())
    # ---- answers before and after ------------------------------------------------------------------------------------
    @staticmethod
    def flat(v):
        if v is None:
            return ['absent']
        if isinstance(v, (bool, np.bool_)):
            return ['true' if v else 'false']
        if isinstance(v, dict):
            return [w for k in sorted(v) for w in Session.flat(v[k])]
        if isinstance(v, (list, tuple)):
            return ['seq%d' % len(v)] + [w for x in v for w in Session.flat(x)]
        return [rnd(x) for x in np.asarray(v, dtype=float).reshape(-1)]
    def ask(self, label, fn):
        r = self._ask(fn)
        self.asked.append((label, fn, r))
    def _ask(self, fn):
        def f(v):
            w = self.flat(v)
            return dict(t=[x for x in w if isinstance(x, str)], v=ev([x for x in w if not isinstance(x, str)]))
        return result(call(fn), f)
    def again(self):
        """the questions asked earlier get the same answers"""
        for label, fn, r in self.asked:
            self.rec.emit('again', op=label, a=r, r=self._ask(fn), pre=self.mem.pre(), mem=self.mem.snap())
