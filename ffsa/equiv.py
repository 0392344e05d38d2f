"""Equality of extracted value terms.

Two terms are equal when their normal forms coincide.  Where they do not, the
terms are compared by *random interpretation* (Gulwani & Necula): symbols get
random values of their type, arithmetic / sequence / string operators keep
their meaning, and every other operator is an uninterpreted function (a hash
of its evaluated arguments; arithmetic over such values happens in a prime
field).  A difference is a counter-model, agreement on all samples counts as
equality.  Only formulas extracted by the analysis are evaluated, never the
analysed program.
"""
import math
import os
import hashlib
import struct
import random
from fractions import Fraction
import numpy as np
from . import arrays as A
from .terms import *
from .terms import _closure as closure

P = (1 << 61) - 1
MAXN = 320


class U:
    """uninterpreted value"""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, U) and o.h == self.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return 'u%x' % (self.h % 65536)


class O:
    """instance of a class of the analysed program"""
    __slots__ = ('cls', 'f', 'k')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f
        self.k = 'o%s{%s}' % (cls, ','.join('%s=%s' % (n, key(v)) for n, v in sorted(f.items())))

    def __eq__(self, o):
        return isinstance(o, O) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return '%s(%s)' % (self.cls.split('.')[-1], ', '.join('%s=%s' % x for x in self.f.items()))


class F:
    """field element"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v % P

    def __eq__(self, o):
        return isinstance(o, F) and o.v == self.v

    def __hash__(self):
        return hash(('F', self.v))

    def __repr__(self):
        return 'f%x' % (self.v % 65536)


def key(v):
    if isinstance(v, bool):
        return 'i%d' % int(v)
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return 'i%d' % v.numerator
        f = float(v)        # roots are rational approximations: compare up to rounding
        r = round(f)
        return 'i%d' % r if abs(f - r) <= 1e-9 * max(1, abs(f)) else 'q%.9g' % f
    if isinstance(v, float):
        return 'i%d' % int(v) if v == int(v) else 'd%r' % v
    if isinstance(v, (str, bytes)) or v is None:
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ','.join(key(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(sorted(key(a) + ':' + key(b) for a, b in v.items())) + '}'
    if isinstance(v, frozenset):
        return 's{' + ','.join(sorted(key(a) for a in v)) + '}'
    if isinstance(v, O):
        return v.k
    if isinstance(v, U):
        return 'u%d' % v.h
    if isinstance(v, F):
        return 'f%d' % v.v
    if A.is_arr(v):
        return 'a%s[%s]' % (v.shape, ','.join(key(x) for x in v.reshape(-1)))
    if isinstance(v, slice):
        return 'sl(%s,%s,%s)' % (key(v.start), key(v.stop), key(v.step))
    return repr(v)


def hsh(*xs):
    return int.from_bytes(hashlib.blake2b('|'.join(x if isinstance(x, str) else key(x) for x in xs).encode('utf8', 'surrogatepass'), digest_size=8).digest(), 'big')


ERR = U(hsh('err'))


def field(v):
    if isinstance(v, F):
        return v.v
    if isinstance(v, (bool, int)):
        return int(v) % P
    if isinstance(v, Fraction):
        return v.numerator * pow(v.denominator, -1, P) % P
    if isinstance(v, float):
        f = Fraction(v)
        return f.numerator * pow(f.denominator, -1, P) % P
    return hsh('field', v) % P


def isnum(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, float)


# pure string methods with their library meaning
STRM = {'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'split', 'rsplit', 'replace', 'startswith', 'endswith',
        'isspace', 'isalpha', 'isdigit', 'find', 'count', 'partition', 'rpartition', 'splitlines', 'expandtabs', 'zfill'}


def tup(v):
    return tuple(v) if isinstance(v, list) else v


# operations whose meaning is a function of their arguments that the engine models exactly;
# anything else makes a sample unusable (never a definite difference)
def _half(x):
    return Fraction(struct.unpack('<e', struct.pack('<e', float(x)))[0])


NUMERIC = {'builtins.abs': abs, 'numpy.abs': abs, 'numpy.absolute': abs, 'numpy.fabs': abs, 'math.fabs': abs, 'builtins.round': round, 'numpy.round': round, 'numpy.around': round,
           'numpy.round_': round, 'math.floor': math.floor, 'math.ceil': math.ceil, 'math.trunc': int, 'numpy.float16': _half, 'numpy.half': _half,
           'numpy.float32': lambda x: x, 'numpy.float64': lambda x: x}     # functions of sample numbers; single and double precision count as exact
UNINTERPRETED = {
    'rdb', 'ard', 'fld', 'line', 'lines', 'decode', 'encode', 'split', 'resplit', 'strip', 'str', 'fmt', 'float', 'int', 'ndop', 'norm', 'dot', 'T', 'astype', 'asarray',
    'reshape', 'memmap', 'alloc', 'ver', 'wr', 'full', 'lver', 'argpart', 'asum', 'arange', 'frombuf', 'tobytes', 'byteswap', 'attr', 'fobj', 'join', 'join_b', 'pow', 'pad', 'dtype',
    'unpack', 'enum', 'enumcast', 'func', 'class', 'isa', 'isat', 'isax', 'typeof', 'eof', 'got', 'hasattr', 'obj', 'sfmt', 'calcsize', 'module', 'ext', 'ref', 'ndim', 'size', 'psize',
    'call', 'mcall', 'top', 'undef', 'bottom', 'slice', 'item', 'view', 'sym', 'enumok', 'count', 'eofpos', 'pieces', 'rest', 'raises', 'builtin', 'bound', 'bmeth', 'vmeth', 'pack', 'addr',
    'fold', 'until', 'first', 'sometime', 'dget', 'kw',
}
_free = {}


def free(t):
    """bound variables that occur free in t"""
    r = _free.get(t)
    if r is None:
        s = set()
        if t.op in ('bv', 'acc'):
            s.add((t.op,) + tuple(t.a[:2] if t.op == 'acc' else t.a[:1]))
        elif t.op == 'sym':
            if t.a[0].startswith('%b'):
                s.add(('sym', t.a[0]))
        elif t.op in QOPS:
            h = t.a[-1]
            outer = (t.a[0], t.a[1]) if t.op in ('fold', 'until') else (t.a[0],)
            inner = t.a[len(outer):-1]
            _fr(inner, s)
            s = {x for x in s if x[1] != h}
            _fr(outer, s)
        else:
            _fr(t.a, s)
        r = _free[t] = tuple(sorted(s, key=str))
    return r


def _fr(x, s):
    if isinstance(x, T):
        s.update(free(x))
    elif isinstance(x, (tuple, list)):
        for y in x:
            _fr(y, s)


READS = {'rdb', 'ard', 'line', 'lines', 'fld', 'raises'}
ARROPS = {'byteswap', 'alloc', 'ver', 'ndim', 'isa', 'arange', 'asarray', 'astype', 'ndop', 'dot', 'asum', 'amean', 'norm', 'T', 'reshape', 'tolist', 'iter', 'len', 'size', 'attr'}


class NoEval(Exception):
    pass


class Oob(NoEval):
    """an array write that numpy would refuse"""


ALPHA = ['a', 'B', '<', '>', '\u00e9', ' ', 'x', '\u2003', '\U0001f600', '\u20ac']


class Env:
    arrays = True
    posof = None     # array whose cells are numbered instead of valued
    iters = None     # how often each loop of a replayed trace ran
    reads = None     # what the reads of a replayed trace returned
    wide = False     # integers at the limits of machine types instead of small ones
    scale = 1        # factor of random array elements
    ambient = 0      # which of two process environments: order of sets, stale memory, clock, random numbers
    big = False      # byte order of the host the terms were extracted for

    def __init__(self, seed, small=True):
        self.r = random.Random(seed)
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.steps = 0
        self.over = {}
        self.bases = {}        # contents of memory before any write, where `over` has a later one
        self.overops = ()
        self.n = self.r.randint(0, 4)

    def read(self, t, b):
        """value of a read in a replayed trace"""
        op, a = t.op, t.a
        if op == 'fld':
            buf, off = self.ev(a[0], b), self.ev(a[1], b)
            if not isinstance(buf, bytes) or not isinstance(off, int):
                raise NoEval()
            o = a[3] if a[3] in '<>!' else '>' if self.big else '<'
            try:
                v = struct.unpack_from(o + a[2], buf, off)[0]
            except struct.error:
                raise NoEval()
            return A.norm_scalar(Fraction(v)) if isinstance(v, float) else v
        if op == 'raises':
            x = a[0]
            if x.op == 'line' and a[1] == 'StopIteration':
                return not self.ev(x, b)
            raise NoEval()
        k = (op, a[0], a[1], tuple(self.ev(x, b) for x in a[2]))
        if k not in self.reads:
            raise NoEval()
        return self.reads[k]

    def ran(self, t, b):
        """what an open-ended loop of a replayed trace came to"""
        op, a = t.op, t.a
        if op == 'first':
            n = max(self.iters.values(), default=0)
            for i in range(n):
                bb = dict(b)
                bb[('bv', a[-1])] = i
                if self.truth(self.ev(a[1], bb)):
                    return self.ev(a[2], bb)
            raise NoEval()
        vs = [x for x in free(a[0]) if x in self.iters and x not in b]
        if len(vs) != 1:
            raise NoEval()
        n = self.iters[vs[0]]
        for i in range(n) if op == 'sometime' else [n - 1]:
            bb = dict(b)
            bb[vs[0]] = i
            v = self.ev(a[0], bb)
            if op == 'lastval':
                return v
            if self.truth(v):
                return True
        return False

    # -- symbols
    def symval(self, t):
        if t in self.vals:
            return self.vals[t]
        r = random.Random('%d|%s' % (self.seed, t.a[0]))
        v = self.rand(t.a[1], r, t)
        self.vals[t] = v
        return v

    def rand(self, ty, r, t=None):
        k = ty[0]
        if k == 'opt':
            return None if r.random() < 0.3 else self.rand(ty[1], r, t)
        if k == 'bool':
            return r.random() < 0.5
        if k == 'int':
            lo, hi = RNG.get(t, (None, None)) if t is not None else (None, None)
            if self.wide and t is not None and r.random() < .7:
                return pick(lo, hi, r)
            if lo is None and hi is None:
                lo, hi = (-4, 9)
                if r.random() < .2:
                    lo, hi = -300, 300
            elif lo is None:
                lo = hi - 9
            elif hi is None or hi - lo > 9:
                hi = lo + (9 if r.random() < .8 else min(300, (hi - lo) if hi is not None else 300))
            return r.randint(lo, hi)
        if k == 'str':
            return ''.join(r.choice(ALPHA) for _ in range(r.randint(0, 5)))
        if k == 'bytes':
            return bytes(r.randrange(256) for _ in range(r.randint(0, 5)))
        if k in ('list', 'seq'):
            n = self.n if r.random() < .8 else r.randint(0, 4)
            out = []
            if ty[1][0] == 'int':
                m = r.random()
                if m < .5:      # dense numbering, possibly with repeats
                    for i in range(n):
                        out.append(r.randint(0, max(out) + 1) if out else 0)
                    if r.random() < .5:
                        r.shuffle(out)
                    return tuple(out)
                return tuple(self.rand(ty[1], r) for _ in range(n))
            for i in range(n):
                x = self.rand(ty[1], r)
                if x not in out:
                    out.append(x)
            return tuple(out)
        if k == 'dict':
            return {self.rand(ty[1], r): self.rand(ty[2], r) for _ in range(r.randint(0, 3))}
        if k == 'set':
            return frozenset(self.rand(ty[1], r) for _ in range(r.randint(0, 3)))
        if k == 'tuple':
            return tuple(self.rand(x, r) for x in ty[1:])
        if k == 'nd' and t in A.SHAPES and self.arrays:
            shp = tuple(self.ev(x) for x in A.SHAPES[t][0])
            if all(isinstance(x, int) and x >= 0 for x in shp):
                n = 1
                for x in shp:
                    n *= x
                if n > A.LIMIT:
                    raise NoEval()
                lo, hi = A.ELEMS.get(t, (-50, 50))
                den = r.choice((1, 1, 64, 200)) if t not in A.ELEMS else 1
                lo, hi = (self.ev(x) if isinstance(x, T) else x for x in (lo, hi))
                zero = r.random()
                a = A.obj(shp, [0] * n)
                f = a.reshape(-1)
                for i in range(n):
                    f[i] = A.norm_scalar(Fraction(r.randint(lo, hi), den) * (self.scale if t not in A.ELEMS else 1)) if hi >= lo else 0
                if zero < .08 and t not in A.ELEMS:
                    a[...] = 0
                elif zero < .3 and t not in A.ELEMS and len(shp) == 2:
                    for i in range(shp[0]):
                        if r.random() < .4:
                            a[i] = 0
                return a
        return U(hsh('sym', str(self.seed), t.a[0] if t is not None else str(r.random())))

    # -- evaluation
    def ev(self, t, b=None):
        b = b or {}
        self.steps += 1
        if self.steps > 400000:
            raise NoEval()
        k = t
        if b:
            fr = free(t)
            if fr:
                k = (t,) + tuple(b.get(x) for x in fr)
                for f, x in zip(fr, k[1:]):
                    if type(x) is not int and (x is not None or f[0] != 'sym'):
                        k = None
                        break
        if k is not None:
            r = self.memo.get(k, self)
            if r is not self:
                return r
        v = self._ev(t, b)
        if k is not None:
            self.memo[k] = v
        return v

    def unint(self, t, b):
        parts = []

        def go(x):
            if isinstance(x, T):
                parts.append(key(self.ev(x, b)))
            elif isinstance(x, tuple):
                parts.append('(')
                for y in x:
                    go(y)
                parts.append(')')
            else:
                parts.append('L' + str(x))
        for x in t.a:
            go(x)
        return hsh(t.op, *parts)

    def _ev(self, t, b):
        op, a = t.op, t.a
        ev = lambda x: self.ev(x, b)
        if op == 'c':
            return a[0]
        if op == 'sym':
            if ('sym', a[0]) in b:
                return b[('sym', a[0])]
            return self.over[t] if t in self.over else self.symval(t)
        if self.reads is not None and op == 'got':
            v = ev(a[0])
            if A.is_arr(v):
                return v.size
        if self.reads is not None and op in ('first', 'sometime', 'lastval'):
            return self.ran(t, b)
        if self.reads is not None and op in READS:
            return self.over[t] if t in self.over else self.read(t, b)
        if op in ARROPS or op in self.overops:
            r = self.array_op(t, b)
            if r is not self:
                return A.norm_scalar(r)
        if op in ('bv', 'acc'):
            k = (op,) + tuple(a[:2] if op == 'acc' else a[:1])
            if k in b:
                return b[k]
            return U(hsh('free', str(k)))
        if op == 'poly':
            return self.poly(t, b)
        if op == 'ite':
            return ev(a[1]) if self.truth(ev(a[0])) else ev(a[2])
        if op == 'not':
            return not self.truth(ev(a[0]))
        if op == 'and':
            return all(self.truth(ev(x)) for x in a)
        if op == 'or':
            return any(self.truth(ev(x)) for x in a)
        if op == 'eq':
            x, y = ev(a[0]), ev(a[1])
            if self.reads is not None and (isinstance(x, (U, F)) or isinstance(y, (U, F))) and x is not None and y is not None:
                raise NoEval()
            return self.same(x, y)
        if op in ('le0', 'lt0'):
            v = ev(a[0])
            if isinstance(v, (int, Fraction, float)):
                return v <= 0 if op == 'le0' else v < 0
            if v is A.NAN:
                return False
            if self.reads is not None:
                raise NoEval()
            return hsh(op, v) % 2 == 0
        if op == 'is':
            return a[0] is a[1]
        if op == 'isnone':
            return ev(a[0]) is None
        if op == 'truth':
            return self.truth(ev(a[0]))
        if op in ('mod', 'fdiv', 'band', 'bor', 'bxor', 'shl', 'shr'):
            vs = [ev(x) for x in a]
            if all(isinstance(v, int) for v in vs):
                try:
                    r = int(vs[0])
                    for y in vs[1:]:
                        y = int(y)
                        if op in ('shl', 'shr') and y > 4096:
                            raise NoEval()
                        r = {'mod': lambda: r % y, 'fdiv': lambda: r // y, 'band': lambda: r & y, 'bor': lambda: r | y, 'bxor': lambda: r ^ y,
                             'shl': lambda: r << y, 'shr': lambda: r >> y}[op]()
                    return r
                except (ZeroDivisionError, ValueError):
                    return U(hsh('err'))
            if op in ('band', 'bor', 'bxor'):
                vs = sorted(vs, key=key)
            return U(hsh(op, *vs))
        if op == 'max0':
            v = ev(a[0])
            return max(0, v) if isinstance(v, (int, Fraction)) else U(hsh(op, v))
        if op in ('min', 'max'):
            vs = [ev(x) for x in (a[0] if isinstance(a[0], tuple) else a)]
            if all(isinstance(v, (int, Fraction)) for v in vs):
                return (min if op == 'min' else max)(vs)
            return U(hsh(op, *sorted(map(key, vs))))
        if op in ('minof', 'maxof'):
            v = ev(a[0])
            v = tuple(v) if isinstance(v, (tuple, dict, frozenset)) else v
            if isinstance(v, tuple) and v and all(isinstance(x, int) for x in v):
                return (min if op == 'minof' else max)(v)
            return U(hsh(op, v))
        if op == 'cast':
            v = ev(a[1])
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int) and a[0] in CT:
                lo, hi = CT[a[0]]
                n = hi - lo + 1
                return (v - lo) % n + lo
            return v if a[0] not in CT else U(hsh('cast', a[0], v))
        if op in ('tuple', 'list'):
            out = []
            for x in a:
                if x.op == 'star':
                    v = ev(x.a[0])
                    if not isinstance(v, tuple):
                        return U(self.unint(t, b))
                    out.extend(v)
                else:
                    out.append(ev(x))
            return tuple(out)
        if op in ('set',):
            return frozenset(self.hashable(ev(x)) for x in a)
        if op == 'obj':
            return O(a[0], {n: ev(v) for n, v in a[1]})
        if op == 'attr':
            v = ev(a[0])
            if isinstance(v, O) and a[1] in v.f:
                return v.f[a[1]]
        if op == 'sortby':
            v = ev(a[0])
            ks = ev(a[1]) if a[1] is not NONE else v
            rev = self.truth(ev(a[2]))
            if isinstance(v, tuple) and isinstance(ks, tuple) and len(ks) == len(v):
                try:
                    import functools
                    order = sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: self.order(ks[i], ks[j])), reverse=rev)
                except TypeError:
                    raise NoEval()
                return tuple(v[i] for i in order)
            raise NoEval()
        if op in ('argpart', 'argsort'):
            v = ev(a[0])
            if A.is_arr(v) and v.ndim == 1:
                n = len(v)
                r = random.Random('arg|%d|%s' % (self.seed, n))
                tie = [r.random() for _ in range(n)]
                o = sorted(range(n), key=lambda i: (v[i], tie[i]))
                if op == 'argpart':
                    kth = ev(a[1])
                    if not isinstance(kth, int):
                        raise NoEval()
                    if not -n <= kth < n:
                        raise Oob()
                    kth %= n
                    left, right = o[:kth], o[kth + 1:]
                    r.shuffle(left)
                    r.shuffle(right)
                    o = left + [o[kth]] + right
                return A.obj((n,), o)
            raise NoEval()
        if op == 'setof':
            v = ev(a[0])
            if isinstance(v, (tuple, dict, frozenset, str)):
                return frozenset(self.hashable(x) for x in v)
            return U(hsh('setof', v))
        if op == 'setseq':
            v = ev(a[0])
            return tuple(sorted(v, key=key, reverse=bool(Env.ambient))) if isinstance(v, frozenset) else U(hsh('setseq', v, Env.ambient))
        if op == 'indexof':
            v, x = ev(a[0]), ev(a[1])
            return v.index(x) if isinstance(v, tuple) and x in v else U(hsh('indexof', v, x))
        if op == 'mcall' and a[0] in STRM:
            v = ev(a[1])
            if isinstance(v, (str, bytes)):
                try:
                    return tup(getattr(v, a[0])(*[ev(x) for k, x in a[2] if k == ''], **{k: ev(x) for k, x in a[2] if k != ''}))
                except Exception:       # noqa
                    return U(hsh('err'))
        if op == 'dict':
            return {self.hashable(ev(k)): ev(v) for k, v in a}
        if op == 'cat':
            vs = [ev(x) for x in a]
            if all(isinstance(v, str) for v in vs) or all(isinstance(v, bytes) for v in vs) or all(isinstance(v, tuple) for v in vs):
                r = vs[0]
                for v in vs[1:]:
                    r = r + v
                return r
            return U(hsh('cat', *vs))
        if op == 'len':
            v = ev(a[0])
            if isinstance(v, (str, bytes, tuple, dict, frozenset)):
                return len(v)
            if self.reads is not None:
                raise NoEval()
            return hsh('len', v) % 7
        if op == 'encode':
            v = ev(a[0])
            enc = str(a[1]).strip("'").lower().replace('_', '-')
            if isinstance(v, str) and enc in ('utf-8', 'utf8', 'ascii', 'latin-1', 'utf-16', 'utf-32'):
                er = ev(a[2]) if len(a) > 2 and isinstance(a[2], T) else 'strict'
                if not isinstance(er, str):
                    return U(hsh('encode', v, str(a[1]), er))
                try:
                    return v.encode(enc, er)
                except (UnicodeEncodeError, LookupError):
                    return U(hsh('err'))
            return U(hsh('encode', v, str(a[1])))
        if op == 'item':
            return self.item(ev(a[0]), a[1], b, t)
        if op == 'dget':
            d, k = ev(a[0]), ev(a[1])
            if isinstance(d, dict):
                return d.get(self.hashable(k), ev(a[2]) if len(a) > 2 else None)
            return U(hsh('dget', d, k))
        if op == 'in':
            x, c = ev(a[0]), ev(a[1])
            if isinstance(c, (tuple, frozenset, dict)):
                return any(self.same(x, y) for y in c)
            if isinstance(c, str) and isinstance(x, str) or isinstance(c, bytes) and isinstance(x, (int, bytes)):
                return x in c
            if self.reads is not None:
                raise NoEval()
            return hsh('in', x, c) % 2 == 0
        if op in ('keys', 'iter', 'tolist'):
            v = ev(a[0])
            return tuple(v) if isinstance(v, (tuple, dict)) else U(hsh('iter', v))
        if op == 'values':
            v = ev(a[0])
            return tuple(v.values()) if isinstance(v, dict) else U(hsh('values', v))
        if op == 'items':
            v = ev(a[0])
            return tuple(v.items()) if isinstance(v, dict) else U(hsh('items', v))
        if op == 'reversed':
            v = ev(a[0])
            return tuple(reversed(v)) if isinstance(v, tuple) else U(hsh('reversed', v))
        if op == 'int':
            v = ev(a[0])
            if isinstance(v, (int, Fraction)):
                return int(v)
            if isinstance(v, (str, bytes)):
                try:
                    return int(v)
                except ValueError:
                    return U(hsh('err'))
            if isinstance(v, U) and v == ERR:
                return v
            return U(hsh('int', v))
        if op == 'view':
            return ev(a[0])
        if op in QOPS:
            return self.quant(t, b)
        if op == 'lstore':
            v, i, x = ev(a[0]), ev(a[1]), ev(a[2])
            if isinstance(v, tuple) and isinstance(i, int):
                return v[:i] + (x,) + v[i + 1:] if 0 <= i < len(v) else U(hsh('err'))
            return U(hsh('lstore', v, i, x))
        if op == 'calloc':
            n = ev(a[0])
            if isinstance(n, int) and n <= 4 * MAXN:
                return tuple(hsh('garbage', str(i)) % 5 for i in range(n))
            raise NoEval()
        if op == 'ord':
            v = ev(a[0])
            return ord(v) if isinstance(v, str) and len(v) == 1 else v[0] if isinstance(v, bytes) and len(v) == 1 else U(hsh('ord', v))
        if op == 'htole':
            w, v = ev(a[0]), ev(a[1])
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big') if isinstance(v, int) else U(hsh(op, w, v))
        if op == 'addr':
            v = ev(a[1])
            k = a[0] if isinstance(a[0], str) else ev(a[0])
            if isinstance(v, int) and k in CT:
                lo, hi = CT[k]
                n = (hi - lo + 1).bit_length() // 8
                return ((v - lo) % (hi - lo + 1) + lo).to_bytes(n, 'big' if self.big else 'little', signed=lo < 0)
        if op == 'call' and a[0] in NUMERIC and all(k == '' for k, _ in a[1]):
            vs = [ev(x) for _, x in a[1]]
            if vs and all(isinstance(v, (int, Fraction)) for v in vs):
                try:
                    return A.norm_scalar(NUMERIC[a[0]](*vs))
                except (TypeError, ValueError, ArithmeticError):
                    return U(hsh('err'))
        if op == 'call' and str(a[0]).startswith(AMBIENT):
            vs = [ev(x) for _, x in a[1]]
            amb = 0 if a[0] == 'builtins.hash' and all(isinstance(v, (bool, int, Fraction)) for v in vs) else Env.ambient
            h = hsh('ambient', a[0], amb, *vs)
            if a[0] in ('builtins.hash', 'builtins.id', 'os.getpid', 'time.time_ns', 'random.randint', 'random.randrange', 'random.getrandbits', 'numpy.random.randint'):
                return h % 1000
            if a[0] in ('random.random', 'random.uniform', 'random.gauss', 'time.time', 'time.monotonic', 'time.perf_counter', 'time.process_time', 'numpy.random.rand', 'numpy.random.random', 'numpy.random.uniform'):
                return Fraction(h % 1000, 1000)
            return U(h)
        if op == 'ext' and str(a[0]).startswith(AMBIENT):
            return U(hsh('ambient', a[0], Env.ambient))
        if op == 'call' and a[0] in ('fnv_64a_buf', 'fnv_32a_buf', 'fnv_64_buf', 'fnv_32_buf'):
            kw = {k: ev(x) for k, x in a[1]}
            d, n, h = kw['buf'], kw['len'], kw['h']
            if isinstance(d, bytes) and isinstance(n, int) and isinstance(h, int) and n <= len(d):
                w, prime = (64, 1099511628211) if '64' in a[0] else (32, 16777619)
                for x in d[:n]:
                    h = (h ^ x) * prime % 2**w if 'a_buf' in a[0] else (h * prime % 2**w) ^ x
                return h
            return U(hsh('call', a[0], d, n, h))
        if op == 'pack' and a[0].op == 'sfmt':
            vs = []
            for x in a[1]:
                if x.op == 'star':
                    y = ev(x.a[0])
                    if not isinstance(y, tuple):
                        return U(self.unint(t, b))
                    vs.extend(y)
                else:
                    vs.append(ev(x))
            try:
                fmt = ''.join('%d%s' % (n if isinstance(n, int) else ev(n), c) for n, c in a[0].a[1])
                o = a[0].a[0]
                return struct.pack((o if o in '<>!' else '>' if self.big else '<') + fmt, *vs)
            except (struct.error, TypeError):
                return U(self.unint(t, b))
        if op == 'dstore':
            d = ev(a[0])
            if isinstance(d, dict):
                d = dict(d)
                d[self.hashable(ev(a[1]))] = ev(a[2])
                return d
        if op in ('dedup', 'union', 'setdiff', 'setand', 'sadd', 'setcmp', 'rep', 'dupd', 'ddef', 'sorted', 'bytes1', 'rangex', 'str', 'repr', 'fmt', 'decode', 'strip', 'split', 'join', 'join_b', 'resplit', 'strs', 'pow', 'float', 'toset'):
            r = self.builtin(t, b)
            if r is not self:
                return r
        if op not in UNINTERPRETED:
            raise NoEval()
        if typ(t) == BOOL:
            if self.reads is not None:
                raise NoEval()
            return self.unint(t, b) % 2 == 0
        if typ(t) == INT:
            if self.reads is not None:
                raise NoEval()
            h = self.unint(t, b)
            if self.wide and op == 'fld' and a[2] in STRUCT_RNG:
                return pick(*CT[STRUCT_RNG[a[2]]], random.Random(h))
            return h % 9
        return U(self.unint(t, b))

    def builtin(self, t, b):
        """library operations on concrete sample values; self if the values are not concrete"""
        op, a = t.op, t.a
        vs = [self.ev(x, b) if isinstance(x, T) else x for x in a]
        v = vs[0]
        coll = (tuple, dict, frozenset)
        if op == 'dedup' and isinstance(v, coll):
            return tuple(dict.fromkeys(map(self.hashable, v)))
        if op == 'ddef':
            return dict.fromkeys(v, vs[1]) if len(vs) > 1 and isinstance(v, coll) else self
        if op in ('union', 'setdiff', 'setand') and all(isinstance(x, coll) for x in vs):
            if op == 'union' and all(isinstance(x, dict) for x in vs):
                return self
            sets = [frozenset(x) for x in vs]
            r = sets[0]
            for x in sets[1:]:
                r = r | x if op == 'union' else r - x if op == 'setdiff' else r & x
            return r
        if op == 'sadd' and isinstance(v, frozenset):
            return v | {self.hashable(vs[1])}
        if op == 'setcmp' and all(isinstance(x, coll) for x in vs[1:]):
            x, y = frozenset(vs[1]), frozenset(vs[2])
            f = {'LtE': x <= y, 'Lt': x < y, 'GtE': x >= y, 'Gt': x > y}.get(str(v).replace("'", ''))
            return self if f is None else f
        if op == 'rep' and isinstance(v, (str, bytes, tuple)) and isinstance(vs[1], int):
            return v * min(vs[1], MAXN)
        if op == 'dupd' and all(isinstance(x, dict) for x in vs):
            return {**v, **vs[1]}
        if op == 'sorted' and isinstance(v, coll) and not a[1]:
            try:
                return tuple(sorted(v))
            except TypeError:
                return self
        if op == 'str' and isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        if op == 'str' and isinstance(v, Fraction):
            return '%d/%d' % (v.numerator, v.denominator)
        if op == 'fmt':
            fl = lambda y: float(y) if isinstance(y, Fraction) else y
            try:
                if len(a) == 3:
                    if isinstance(v, (int, Fraction, str)) and not isinstance(v, bool) and vs[1] in (-1, 115, 114):
                        y = fl(v)
                        return format(str(y) if vs[1] == 115 else repr(y) if vs[1] == 114 else y, vs[2])
                elif isinstance(v, str):
                    xs = tuple(self.ev(y, b) for y in a[1]) if isinstance(a[1], tuple) else vs[1]
                    one = not isinstance(xs, tuple)
                    xs = (xs,) if one else xs
                    if all(isinstance(y, (int, Fraction, str)) and not isinstance(y, bool) for y in xs):
                        xs = tuple(fl(y) for y in xs)
                        return v.format(*xs) if isinstance(a[1], tuple) else v % xs
            except (ValueError, TypeError, IndexError, KeyError):
                pass
            return self
        if op == 'float':
            if isinstance(v, (int, Fraction)):
                return v
            if isinstance(v, str):
                try:
                    return A.norm_scalar(Fraction(v))
                except (ValueError, ZeroDivisionError):
                    return self
        if op == 'repr' and isinstance(v, int) and not isinstance(v, bool):
            return repr(v)
        if op == 'repr' and isinstance(v, Fraction):
            return '%d/%d' % (v.numerator, v.denominator)
        if op == 'join_b' and isinstance(v, bytes) and isinstance(vs[1], tuple) and all(isinstance(x, bytes) for x in vs[1]):
            return v.join(vs[1])
        if op == 'resplit' and isinstance(v, str) and isinstance(vs[1], str) and not vs[2] and (vs[3] is None or isinstance(vs[3], int)):
            import re
            try:
                return tuple(re.split(vs[1], v, maxsplit=vs[3] or 0))
            except re.error:
                return self
        if op == 'strip' and isinstance(v, (str, bytes)) and (vs[2] is None or isinstance(vs[2], type(v))):
            return getattr(v, vs[1])(vs[2])
        if op == 'split' and isinstance(v, (str, bytes)) and (vs[1] is None or isinstance(vs[1], type(v)) and vs[1]) and (vs[2] is None or isinstance(vs[2], int)):
            return tuple(getattr(v, vs[3])(vs[1], -1 if vs[2] is None else vs[2]))
        if op == 'join' and isinstance(v, str) and isinstance(vs[1], tuple) and all(isinstance(x, str) for x in vs[1]):
            return v.join(vs[1])
        if op == 'decode' and isinstance(v, bytes) and isinstance(vs[1], str) and (vs[2] is None or isinstance(vs[2], str)):
            try:
                return v.decode(vs[1], vs[2] or 'strict')
            except (UnicodeDecodeError, LookupError):
                raise NoEval()
        if op == 'pow' and all(isinstance(x, int) for x in vs) and 0 <= vs[1] < 256:
            return v ** vs[1]
        if op == 'rangex' and all(isinstance(x, int) for x in vs) and vs[2]:
            r = range(*vs)
            if len(r) > MAXN:
                raise NoEval()
            return tuple(r)
        return self

    def order(self, x, y):
        if isinstance(x, O) and isinstance(y, O):
            od = ORDER.get(x.cls)
            if x.cls != y.cls or od is None:
                raise TypeError()
            if od[0] == 'fields':
                return self.order(tuple(x.f[n] for n in od[1]), tuple(y.f[n] for n in od[1]))
            def less(p, q):
                e = Env(self.seed)
                e.vals = dict(self.vals)
                for n, sa, sb in od[2]:
                    e.vals[sa], e.vals[sb] = p.f[n], q.f[n]
                return e.truth(e.ev(od[1]))
            return -1 if less(x, y) else 1 if less(y, x) else 0
        if isinstance(x, (U, F)) or isinstance(y, (U, F)):
            raise TypeError()
        return -1 if x < y else 1 if y < x else 0

    def hashable(self, v):
        return key(v) if isinstance(v, dict) else v

    def same(self, x, y):
        if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
            return x == y or not (isinstance(x, int) and isinstance(y, int)) and abs(x - y) <= Fraction(1, 10**9) * max(1, abs(x))
        if A.is_arr(x) and A.is_arr(y):
            return x.shape == y.shape and all(self.same(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1)))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same(p, q) for p, q in zip(x, y))
        return key(x) == key(y)

    def truth(self, v):
        if A.is_arr(v):
            if v.size != 1:
                raise NoEval()
            return bool(v.reshape(-1)[0])
        if isinstance(v, (U, F)) and self.reads is not None:
            raise NoEval()
        if isinstance(v, U):
            return v.h % 2 == 0
        if isinstance(v, F):
            return v.v % 2 == 0
        return bool(v)

    # -- arrays
    def index(self, it, b):
        """python index of an index term"""
        if it.op == 'slice':
            return slice(*[self.ev(x, b) for x in it.a])
        if it.op == 'tuple':
            return tuple(self.index(x, b) for x in it.a)
        k = self.ev(it, b)
        if isinstance(k, tuple):
            k2 = [int(x) if isinstance(x, (int, bool)) else x for x in k]
            return np.array(k2, dtype=np.intp) if all(isinstance(x, int) for x in k2) else U(hsh('badindex'))
        if A.is_arr(k):
            vals = list(k.reshape(-1))
            if vals and all(isinstance(x, bool) for x in vals):
                return k.astype(bool)
            if all(isinstance(x, (int, bool)) for x in vals):
                return k.astype(np.intp)
            return U(hsh('badindex'))
        if isinstance(k, bool):
            return int(k)
        return k

    def array_op(self, t, b):
        op, a = t.op, t.a
        ev = lambda x: self.ev(x, b)
        if t in self.over:
            return self.over[t]
        if op == 'alloc':
            shp = ev(a[1])
            shp = (shp,) if isinstance(shp, int) else shp
            if not (isinstance(shp, tuple) and all(isinstance(x, int) and x >= 0 for x in shp)):
                return self
            n = 1
            for x in shp:
                n *= x
            if n > A.LIMIT:
                raise NoEval()
            if a[3].op == 'uninit':
                return A.obj(shp, [hsh('junk', str(i), Env.ambient) % 97 + 1000 for i in range(n)])
            f = ev(a[3])
            return A.obj(shp, [f] * n) if A.num(f) else self
        if op == 'ver':
            return self.version(t, b)
        if op == 'ndim':
            v = ev(a[0])
            return v.ndim if A.is_arr(v) else 0 if A.num(v) else self
        if op == 'isa':
            v = ev(a[0])
            if isinstance(v, (U, F)):
                return self
            names = set(a[1])
            if not all(x.startswith('builtins.') or x == 'numpy.ndarray' for x in names):
                return self
            have = {bool: {'bool', 'int'}, int: {'int'}, str: {'str'}, bytes: {'bytes'}, tuple: {'list' if typ(a[0])[0] != 'tuple' else 'tuple'}, dict: {'dict'}, frozenset: {'set'},
                    type(None): set()}.get(type(v))
            if A.is_arr(v):
                return 'numpy.ndarray' in names
            return self if have is None else any('builtins.' + h in names for h in have)
        if op == 'arange':
            vs = [ev(x) for x in a]
            if all(isinstance(x, int) for x in vs):
                r = range(*vs)
                if len(r) > A.LIMIT:
                    raise NoEval()
                return A.obj((len(r),), list(r))
            return self
        v = ev(a[0]) if op != 'ndop' else None
        if op in ('asarray', 'astype', 'copyof'):
            if A.is_arr(v):
                return v
            if isinstance(v, tuple):
                x = A.to_arr(v)
                return self if x is None else x
            return v if A.num(v) else self
        if op == 'ndop':
            return self.ndop(t, b)
        if op == 'dot':
            w = ev(a[1])
            if not (A.is_arr(v) and A.is_arr(w)):
                return A.elementwise(lambda x, y: x * y, v, w) if (A.is_arr(v) or A.num(v)) and (A.is_arr(w) or A.num(w)) else self
            try:
                return v.dot(w) if v.size and w.size else np.array(np.dot(v.astype(float), w.astype(float))).astype(object)
            except ValueError:
                return U(hsh('err'))
        if not A.is_arr(v):
            return self
        if op in ('asum', 'amean'):
            ax = ev(a[1])
            try:
                if ax is None:
                    r = sum(v.reshape(-1), 0)
                else:
                    r = np.add.reduce(v, ax) if v.shape[ax] else A.obj(v.shape[:ax % v.ndim] + v.shape[ax % v.ndim + 1:], [0] * (v.size // 1 if False else int(np.prod(v.shape[:ax % v.ndim] + v.shape[ax % v.ndim + 1:]))))
                if op == 'amean':
                    n = v.size if ax is None else v.shape[ax]
                    if n == 0:
                        return U(hsh('err'))
                    r = A.elementwise(lambda x: x if x is A.NAN else Fraction(x) / n, r)
                return r
            except Exception:        # noqa
                return U(hsh('err'))
        if op == 'norm':
            ax = ev(a[1])
            try:
                return A.norm(v, ax, hsh)
            except Exception:        # noqa
                return U(hsh('err'))
        if op == 'byteswap':
            if self.reads is not None:
                from .replay import swap
                return A.elementwise(swap, v)
            return A.elementwise(lambda x: 10**9 + 7 - x, v)      # some involution
        if op == 'T':
            return v.T
        if op == 'reshape':
            shp = ev(a[1])
            try:
                return v.reshape(shp)
            except (ValueError, TypeError):
                return U(hsh('err'))
        if op in ('tolist', 'iter'):
            def go(x):
                return tuple(go(y) if A.is_arr(y) else y for y in x)
            return go(v)
        if op == 'len':
            return v.shape[0] if v.ndim else U(hsh('err'))
        if op == 'size':
            return v.size
        if op == 'attr' and a[1] == 'shape':
            return tuple(v.shape)
        return self

    def ndop(self, t, b):
        name = t.a[0].a[0] if t.a[0].op == 'c' else None
        args = t.a[1:]
        if any(x.op == 'kw' for x in args):
            return self
        vs = [self.ev(x, b) for x in args]
        good = all(A.is_arr(v) or A.num(v) for v in vs)
        try:
            if name in ('eq', 'not', 'Lt', 'LtE', 'Gt', 'GtE', 'where', 'sqrt', 'square', 'abs', 'maximum', 'minimum') and good:
                f = {'eq': lambda x, y: x == y, 'not': lambda x: not x, 'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y,
                     'where': lambda c, x, y: x if c else y, 'sqrt': lambda x: A.root(x, hsh), 'square': lambda x: x * x, 'abs': abs, 'maximum': max, 'minimum': min}[name]
                return A.elementwise(f, *vs)
            if name in ('flatten', 'copy') and A.is_arr(vs[0]):
                return vs[0].reshape(-1) if name == 'flatten' else vs[0]
            if name in ('concatenate', 'vstack', 'hstack', 'stack') and len(vs) == 1 and isinstance(vs[0], tuple) and all(A.is_arr(x) for x in vs[0]):
                return getattr(np, name)(vs[0])
            if name in ('sum', 'norm', 'mean') and A.is_arr(vs[0]) and 'keepdims' in [x for x in vs[1:] if isinstance(x, str)]:
                ax = vs[1]
                r = A.norm(vs[0], ax, hsh) if name == 'norm' else np.add.reduce(vs[0], ax) if name == 'sum' else self
                return np.expand_dims(r, ax) if A.is_arr(r) and isinstance(ax, int) else self
            if name in ('max', 'min', 'prod') and A.is_arr(vs[0]) and len(vs) == 2:
                return getattr(np, name)(vs[0], axis=vs[1])
            if name in ('all', 'any') and A.is_arr(vs[0]) and len(vs) == 2 and vs[1] is None:
                return (all if name == 'all' else any)(bool(x) for x in vs[0].reshape(-1))
        except Exception:        # noqa
            return U(hsh('err'))
        return self

    def version(self, t, b):
        """t evaluated with the content its root has at the given version"""
        if len(t.a) != 3:
            return self
        x, r, v = t.a
        if self.posof is r:
            return self.ev(x, b)        # only the memory cells matter
        base = self.bases[r] if r in self.bases else self.ev(r, b)
        if not A.is_arr(base):
            return self
        cont = self.replay(r, v, base, b)
        if x is r:
            return cont
        e = Env(self.seed)
        e.vals, e.n, e.steps, e.reads, e.big = self.vals, self.n, self.steps, self.reads, self.big
        e.over = dict(self.over)
        e.over[r] = cont
        e.bases = dict(self.bases)
        e.bases[r] = base
        e.posof = self.posof
        e.overops = tuple(set(self.overops) | {r.op})
        out = e.ev(x, b)
        self.steps = e.steps
        return out

    def replay(self, r, v, base, b):
        """content of root r at version v"""
        if v is ZERO:
            return base
        if v.op == 'ite':
            return self.replay(r, v.a[1] if self.truth(self.ev(v.a[0], b)) else v.a[2], base, b)
        if v.op == 'full':
            x = self.ev(v.a[0], b)
            out = base.copy()
            try:
                out[...] = x if A.is_arr(x) or A.num(x) else A.to_arr(x)
            except (ValueError, TypeError):
                raise NoEval()
            return out
        if v.op == 'wr':
            prev, o, k, x = v.a
            cont = self.replay(r, prev, base, b)
            pos = A.obj(base.shape, list(range(base.size)))
            e = Env(self.seed)
            e.vals, e.n, e.steps, e.reads, e.big = self.vals, self.n, self.steps, self.reads, self.big
            e.over = dict(self.over)
            e.over[r] = pos
            e.bases = self.bases
            e.posof = r
            e.overops = tuple(set(self.overops) | {r.op})
            where = e.ev(o, b)
            if k is not NONE:
                ks = self.index(k, b)
                if A.is_arr(where) and isinstance(ks, int) and not isinstance(ks, bool) and where.ndim and not -where.shape[0] <= ks < where.shape[0]:
                    raise Oob()
                where = self.take(where, ks) if A.is_arr(where) else U(0)
            val = self.ev(x, b)
            if isinstance(where, U) or isinstance(val, (U, F)):
                raise NoEval()
            out = cont.copy().reshape(-1)
            where = where if A.is_arr(where) else A.obj((), where)
            if isinstance(val, tuple):
                if val and all(isinstance(y, str) for y in val):
                    try:
                        val = tuple(A.norm_scalar(Fraction(y)) for y in val)
                    except (ValueError, ZeroDivisionError):
                        raise NoEval()
                val = A.to_arr(val)
            if val is None:
                raise NoEval()
            try:
                src = np.broadcast_to(val if A.is_arr(val) else A.obj((), val), where.shape)
            except ValueError:
                raise Oob()
            for p, y in zip(where.reshape(-1), src.reshape(-1)):
                if not isinstance(p, int) or not 0 <= p < len(out):
                    raise NoEval()
                out[p] = y
            return out.reshape(base.shape)
        if v.op == 'fold':
            n, inits, nexts, cond, idx, h = v.a
            cnt = self.ev(n, b)
            if not isinstance(cnt, int) or cnt > MAXN or len(inits) != 1:
                raise NoEval()
            cont = self.replay(r, inits[0], base, b)
            for i in range(cnt):
                bb = dict(b)
                bb[('bv', h)] = i
                bb[('acc', h, 0)] = ('%version', cont)
                cont = self.replay(r, nexts[0], base, bb)
            return cont
        if v.op == 'acc':
            c = b.get(('acc', v.a[0], v.a[1]))
            if isinstance(c, tuple) and len(c) == 2 and c[0] == '%version':
                return c[1]
        raise NoEval()

    def take(self, v, k):
        if isinstance(k, U) or isinstance(k, tuple) and any(isinstance(x, U) for x in k):
            return U(hsh('err'))
        try:
            return A.norm_scalar(v[k])
        except (IndexError, TypeError, ValueError):
            return U(hsh('err'))

    def apoly(self, t, b):
        tot = 0
        for c, m in t.a[0]:
            x = Fraction(c) if isinstance(c, (int, float, Fraction)) else None
            if x is None:
                return self
            for f, e in m:
                v = self.ev(f, b)
                if not (A.is_arr(v) or A.num(v)):
                    return self
                try:
                    x = x * A.elementwise(lambda y: A.pw(y, e), v)
                except ValueError:
                    return U(hsh('err'))
            try:
                tot = tot + x
            except ValueError:
                return U(hsh('err'))
        return A.elementwise(A.norm_scalar, tot)

    def poly(self, t, b):
        if typ(t) == ND or any(typ(f)[0] in ('nd', 'any') for c, m in t.a[0] for f, e in m):
            r = self.apoly(t, b)
            if r is not self:
                return r
        tot = Fraction(0)
        ftot = 0
        isf = False
        for c, m in t.a[0]:
            x = Fraction(c) if isinstance(c, (int, float, Fraction)) else None
            fx = field(c)
            mf = False
            for f, e in m:
                v = self.ev(f, b)
                if v is A.NAN:
                    return v
                if isinstance(v, (bool, int, Fraction)) and not mf:
                    if e < 0 and v == 0:
                        return U(hsh('err'))
                    x = x * Fraction(v) ** e
                else:
                    mf = True
                fv = field(v)
                if e < 0 and fv == 0:
                    return U(hsh('err'))
                fx = fx * pow(fv, e, P) % P
            if mf:
                isf = True
            else:
                tot += x
            ftot = (ftot + fx) % P
        if isf:
            return F(ftot)
        return int(tot) if tot.denominator == 1 else tot

    def item(self, v, it, b, t):
        if A.is_arr(v):
            return self.take(v, self.index(it, b))
        if it.op == 'slice':
            s = [self.ev(x, b) for x in it.a]
            if isinstance(v, (tuple, str, bytes)) and all(x is None or isinstance(x, int) for x in s):
                try:
                    return v[slice(*s)]
                except ValueError:
                    return U(hsh('err'))
            return U(hsh('slice', v, *s))
        k = self.ev(it, b)
        if isinstance(v, (tuple, str, bytes)) and isinstance(k, int):
            try:
                return v[k]
            except IndexError:
                return U(hsh('err'))
        if isinstance(v, dict):
            try:
                return v.get(self.hashable(k), U(hsh('err')))
            except TypeError:
                return U(hsh('err'))
        ty = typ(t)
        if ty == INT:
            if self.reads is not None:
                raise NoEval()
            return hsh('item', v, k) % 9
        return U(hsh('item', v, k))

    def quant(self, t, b):
        op, a = t.op, t.a
        h = a[-1]
        n = 4096 if a[0] is INF and op == 'until' else self.ev(a[0], b)
        if not isinstance(n, int) or n > MAXN and a[0] is not INF:
            raise NoEval()
        bodies = a[1:-1]

        def at(i, x, extra=None):
            bb = dict(b)
            bb[('bv', h)] = i
            if extra:
                bb.update(extra)
            return self.ev(x, bb)
        if op in ('map', 'smap'):
            r = tuple(at(i, bodies[0]) for i in range(n))
            return r if op == 'map' else frozenset(self.hashable(x) for x in r)
        if op == 'flat':
            out = []
            for i in range(n):
                v = at(i, bodies[0])
                if not isinstance(v, tuple):
                    return U(self.unint_q(t, b, n))
                out.extend(v)
            return tuple(out)
        if op == 'sum':
            fs = [at(i, bodies[0]) for i in range(n)]
            if all(isinstance(v, (bool, int, Fraction)) for v in fs):
                return sum(int(v) if isinstance(v, bool) else v for v in fs)
            return F(sum(field(v) for v in fs))
        if op == 'dmap':
            return {self.hashable(at(i, bodies[0])): at(i, bodies[1]) for i in range(n)}
        if op == 'forall':
            return all(self.truth(at(i, bodies[0])) for i in range(n))
        if op == 'exists':
            return any(self.truth(at(i, bodies[0])) for i in range(n))
        if op in ('fold', 'until'):
            _, inits, nexts, cond, idx, _h = a
            acc = [self.ev(x, b) for x in inits]
            for i in range(n):
                ex = {('acc', h, j): acc[j] for j in range(len(acc))}
                stop = op == 'until' and self.truth(at(i, cond, ex))
                acc = [at(i, x, ex) for x in nexts]
                if stop:
                    break
            else:
                if a[0] is INF:
                    raise NoEval()
            return acc[idx]
        raise NoEval()

    def unint_q(self, t, b, n):
        return hsh(t.op, n, *[str(x.id) if isinstance(x, T) else str(x) for x in t.a[1:]])


def evaluable(lits, env):
    for l in lits:
        if not env.truth(env.ev(l)):
            return False
    return True


DEPTH = 6 if os.environ.get('VERIF_TIER') == 'thorough' else 1      # how many times as many samples
WIDE = sorted({s * (1 << k) + d for k in (7, 8, 15, 16, 24, 31, 32, 33, 40, 62) for s in (1, -1) for d in (-1, 0, 1, 5)})


def pick(lo, hi, r):
    """an integer of the range, preferably at the limit of a machine type"""
    return r.choice([w for w in WIDE if (lo is None or w >= lo) and (hi is None or w <= hi)] or [lo if lo is not None else hi])


SCALAR = {'c', 'sym', 'poly', 'ite', 'not', 'and', 'or', 'eq', 'le0', 'lt0', 'min', 'max', 'max0', 'mod', 'fdiv', 'band', 'bor', 'bxor', 'shl', 'shr', 'cast', 'int',
          'truth', 'is', 'isnone', 'isa', 'item', 'fld', 'rdb', 'fobj', 'bv', 'len', 'enum', 'enumcast', 'tuple', 'obj', 'float', 'in', 'dict', 'zip', 'list', 'keys'}


def differ(x, y, assume=(), tries=400, want=24, pre=None):
    """see agree(); scalar terms are compared at the limits of machine integers too"""
    d = agree(x, y, assume, tries * DEPTH, want * DEPTH, pre)
    if d is None and x is not y and all(t.op in SCALAR for z in (x, y) + tuple(assume) for t in closure(z)):
        e = agree(x, y, assume, 160 * DEPTH, 32 * DEPTH, pre, True)
        if e not in (None, 'nosample'):
            return e
    return d


def agree(x, y, assume=(), tries=400, want=24, pre=None, wide=False):
    """counter-model (dict) for x == y under the assumptions; None if all samples agree;
    'nosample' if the assumptions could not be satisfied"""
    if x is y:
        return None
    ok = 0
    for s in range(tries):
        e = Env(s)
        e.wide = wide
        if pre:
            pre(e)
        try:
            if assume and not evaluable(assume, e):
                continue
            try:
                u = e.ev(x)
            except Oob:
                u = 'IndexError'
            try:
                v = e.ev(y)
            except Oob:
                v = 'IndexError'
        except (NoEval, RecursionError, OverflowError, MemoryError):
            continue
        ok += 1
        if not e.same(u, v):
            return {'values': (str(u)[:200], str(v)[:200]), 'env': {t.a[0]: str(w)[:80] for t, w in e.vals.items()}}
        if ok >= want:
            return None
    return None if ok >= 4 else 'nosample'


def equal(x, y, assume=(), **kw):
    """True / False / None (undecided)"""
    if x is y:
        return True
    d = differ(x, y, assume, **kw)
    if d is None:
        return True
    if d == 'nosample':
        return None
    if opaque_terms(x) ^ opaque_terms(y):
        return None      # an unmodelled operation may be what makes them equal
    return False


OPAQUE = ('top', 'call', 'mcall', 'undef', 'bottom', 'first', 'until')


def opaque_terms(t):
    return {x for x in closure(t) if (x.op in OPAQUE or x.op == 'attr' and x.a[0].op in ('dtype', 'ext')) and not (x.op == 'mcall' and x.a[0] in STRM) and not (x.op == 'call' and (str(x.a[0]).startswith('fnv_') or x.a[0] in NUMERIC))}


def implied(goal, assume=(), **kw):
    """goal holds in every sampled model of the assumptions (True/False/None)"""
    if goal is TRUE:
        return True
    return {None: True, 'nosample': None}.get(_k(differ(goal, TRUE, assume, **kw)), False)


def _k(d):
    return d if d is None or d == 'nosample' else 'cex'
