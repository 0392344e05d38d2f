"""Meaning of array terms on sample values: exact rationals in numpy object arrays."""
from fractions import Fraction
from math import isqrt
import numpy as np

SHAPES = {}      # array symbol -> (shape terms, dtype name)
ELEMS = {}       # array symbol -> (lo, hi) of integer entries
LIMIT = 6000


class Nan:
    """not a finite number"""
    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __abs__ = _s

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = _f

    def __repr__(self):
        return 'nan'


NAN = Nan()


def pw(x, e):
    return NAN if x is NAN or e < 0 and x == 0 else Fraction(x) ** e


def is_arr(v):
    return isinstance(v, np.ndarray)


def norm_scalar(v):
    if isinstance(v, np.ndarray) and v.shape == ():
        v = v.item()
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def num(v):
    return isinstance(v, (int, Fraction, bool)) or v is NAN


def obj(shape, entries):
    a = np.empty(shape, dtype=object)
    a.reshape(-1)[:] = entries
    return a


def to_arr(v):
    """nested tuples of numbers -> array (None if ragged or not numeric)"""
    if is_arr(v):
        return v

    def shape(x):
        if is_arr(x):
            return x.shape
        if isinstance(x, tuple):
            ss = {shape(y) for y in x}
            if len(ss) > 1 or None in ss:
                return None
            return (len(x),) + (ss.pop() if ss else ())
        return () if num(x) else None
    s = shape(v)
    if s is None:
        return None
    flat = []

    def go(x):
        if is_arr(x):
            flat.extend(x.reshape(-1))
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        else:
            flat.append(x)
    go(v)
    a = np.empty(s, dtype=object)
    r = a.reshape(-1)
    for i, x in enumerate(flat):
        r[i] = x
    return a


PREC = 10**25


def root(s, hsh):
    """square root: exact for squares, else a close rational approximation"""
    if s is NAN:
        return s
    s = Fraction(int(s) if isinstance(s, bool) else s)
    if s < 0:
        return Fraction(hsh('root', s) % 1000003 + 1, 1009)
    a, b = isqrt(s.numerator), isqrt(s.denominator)
    if a * a == s.numerator and b * b == s.denominator:
        return norm_scalar(Fraction(a, b))
    return Fraction(isqrt(s.numerator * PREC * PREC // s.denominator), PREC)


def norm(a, axis, hsh):
    sq = a * a
    if axis is None:
        return root(sum(sq.reshape(-1), 0), hsh)
    s = np.add.reduce(sq, axis)
    if not is_arr(s):
        return root(s, hsh)
    out = np.empty(s.shape, dtype=object)
    o, i = out.reshape(-1), s.reshape(-1)
    for j in range(len(i)):
        o[j] = root(i[j], hsh)
    return out


def elementwise(f, *xs):
    ar = [x for x in xs if is_arr(x)]
    if not ar:
        return f(*xs)
    bs = np.broadcast_arrays(*[x if is_arr(x) else obj((), x) for x in xs])
    out = np.empty(bs[0].shape, dtype=object)
    its = [b.reshape(-1) for b in bs]
    o = out.reshape(-1)
    for j in range(len(o)):
        o[j] = f(*[i[j] for i in its])
    return out
