"""Value digests of arrays, lists and documented attributes of pympc objects (frame conditions, P03 and P25)."""
import hashlib
import numpy as np
ATTRS = {
    'Polyhedron': ['A', 'b', 'C', 'd'],
    'LinearSystem': ['A', 'B'],
    'AffineSystem': ['A', 'B', 'c'],
    'PieceWiseAffineSystem': ['affine_systems', 'domains'],
    'MultiParametricQuadraticProgram': ['H', 'f', 'g', 'A', 'b'],
    'MultiParametricMixedIntegerQuadraticProgram': ['H', 'A', 'b'],
    'CriticalRegion': ['active_set', 'polyhedron'],
    'ExplicitSolution': ['critical_regions'],
    'ModelPredictiveController': ['S', 'N', 'Q', 'R', 'P', 'D', 'X_N'],
    'HybridModelPredictiveController': ['S', 'N', 'Q', 'R', 'P', 'X_N'],
}
def feed(h, x, depth=0):
    t = type(x).__name__
    if isinstance(x, np.ndarray):
        a = np.asarray(x, dtype=float) + 0.0
        h.update(('arr%s' % (a.shape,)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(x, dict):
        h.update(b'dict')
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(('list%d' % len(x)).encode())
        for v in x:
            feed(h, v, depth + 1)
    elif isinstance(x, (bool, np.bool_)):
        h.update(b'T' if x else b'F')
    elif isinstance(x, (int, float, np.integer, np.floating)):
        h.update(repr(float(x) + 0.0).encode())
    elif t == 'CriticalRegion' and depth < 6:
        h.update(t.encode())
        for a in ATTRS[t]:
            feed(h, getattr(x, a), depth + 1)
        n = x.polyhedron.A.shape[1]
        for p in [np.zeros(n)] + list(np.eye(n)):       # the laws, through their values
            feed(h, [np.asarray(x.u(p)), np.asarray(x.p(p)), float(x.V(p))], depth + 1)
    elif t in ATTRS and depth < 6:
        h.update(t.encode())
        for a in ATTRS[t]:
            if hasattr(x, a):
                h.update(a.encode())
                feed(h, getattr(x, a), depth + 1)
    elif x is None:
        h.update(b'None')
    else:
        h.update(str(x).encode() if 'object at' not in str(x) else t.encode())
def digest(x):
    h = hashlib.sha1()
    feed(h, x)
    return h.hexdigest()[:16]

class Memory:
    """everything alive, by name; `fresh`: contents at the time a thing became known"""
    def __init__(self):
        self.live, self.n, self.fresh, self.names = {}, 0, {}, {}
    def add(self, x, name=None):
        if name is None:
            if id(x) in self.names:
                return x
            self.n += 1
            name = 'arg%d' % self.n
        self.live[name] = x
        self.names[id(x)] = name
        self.fresh[name] = digest(x)
        return x
    def name(self, x):
        return self.names[id(x)]
    def pre(self):
        f, self.fresh = self.fresh, {}
        return [dict(n=k, g=g) for k, g in f.items()]
    def snap(self):
        return [dict(n=k, g=digest(v)) for k, v in self.live.items()]
