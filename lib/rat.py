"""Encoding of numbers for the trace files: exact rationals as limb lists (see spec/Rat.tla)."""
from fractions import Fraction
import math
BASE = 1 << 30

class NonFinite(Exception):
    pass

def _limbs(n):
    out = []
    while True:
        out.append(n % BASE)
        n //= BASE
        if n == 0:
            return out

def enc(x):
    """Exact encoding of an int, Fraction or float."""
    if not isinstance(x, Fraction):
        if isinstance(x, int):
            x = Fraction(x)
        else:
            x = float(x)
            if not math.isfinite(x):
                raise NonFinite()
            x = Fraction(x)
    n, d = x.numerator, x.denominator
    if n == 0:
        return [0, 1, 0, 1]
    nl = _limbs(abs(n))
    return [1 if n > 0 else -1, len(nl)] + nl + _limbs(d)

def dec(e):
    k = e[1]
    n = sum(v * BASE ** i for i, v in enumerate(e[2:2 + k]))
    d = sum(v * BASE ** i for i, v in enumerate(e[2 + k:]))
    return Fraction(e[0] * n, d)

BITS = 44
def rnd(x, bits=None):
    """A result of the code under test: float -> nearest multiple of 2^-BITS (2^-60 for tiny values is never needed)."""
    bits = BITS if bits is None else bits
    x = float(x)
    if not math.isfinite(x):
        raise NonFinite()
    f = Fraction(x)
    if f.denominator <= (1 << bits):
        return f
    return Fraction(round(f * (1 << bits)), 1 << bits)

def ev(v):   # exact vector
    return [enc(x) for x in v]
def em(M):   # exact matrix
    return [ev(r) for r in M]
def rv(v, bits=None):   # rounded result vector
    return [enc(rnd(x, bits)) for x in v]
def rm(M, bits=None):
    return [rv(r, bits) for r in M]

def fr(v):
    """vector/matrix of floats/ints -> Fractions (exact)"""
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [fr(x) for x in v]
    if isinstance(v, (Fraction, int)):
        return Fraction(v)
    return Fraction(float(v))
