"""Hash-consed value terms with a canonical form (global value numbering domain).

A term denotes the value an expression has at run time, as a function of the
inputs of the analysed entry point.  Two expressions whose terms are identical
objects always evaluate to the same value; the constructors below normalise
(polynomials, comparisons, boolean connectives, gated values, sequences) so
that differently written code with the same meaning gets the same term.
"""
from fractions import Fraction


class T:
    __slots__ = ('op', 'a', 'id', '_fv')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._fv = op, a, len(_tab), None
        _tab[k] = t
    return t


def C(v):
    """Constant."""
    k = ('c', type(v).__name__, v)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._fv = 'c', (v,), len(_tab), None
        _tab[k] = t
    return t


NONE, TRUE, FALSE = C(None), C(True), C(False)
ZERO, ONE = C(0), C(1)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.a[0]


# ------------------------------------------------------------------ types
# ('int',) ('float',) ('bool',) ('str',) ('bytes',) ('list',T) ('dict',K,V)
# ('set',T) ('tuple',T..) ('cls',frozenset) ('nd',) ('file',) ('opt',T)
# ('any',) ('none',) ('seq',T)
ANY = ('any',)
INT, FLOAT, BOOL, STR, BYTES, ND, FILE = (('int',), ('float',), ('bool',), ('str',), ('bytes',), ('nd',), ('file',))
INF = mk('sym', '%inf', INT)
SEQT = ('list', 'tuple', 'seq')


def sym(name, ty=ANY):
    return mk('sym', name, ty)


_tyc = {}


def typ(t):
    r = _tyc.get(t)
    if r is None:
        r = _typ(t)
        _tyc[t] = r
    return r


def join_ty(a, b):
    if a == b:
        return a
    if a == ('none',):
        return b if b[0] == 'opt' else ('opt', b)
    if b == ('none',):
        return a if a[0] == 'opt' else ('opt', a)
    if a[0] == 'opt' or b[0] == 'opt':
        x = join_ty(a[1] if a[0] == 'opt' else a, b[1] if b[0] == 'opt' else b)
        return ('opt', x)
    if a[0] == 'cls' and b[0] == 'cls':
        return ('cls', a[1] | b[1])
    if {a, b} <= {INT, BOOL}:
        return INT
    if {a, b} <= {INT, BOOL, FLOAT}:
        return FLOAT
    if a[0] == b[0] == 'list':
        return ('list', join_ty(a[1], b[1]))
    return ANY


def elem_ty(ty):
    if ty[0] in ('list', 'set', 'seq'):
        return ty[1]
    if ty[0] == 'dict':
        return ty[1]
    if ty == STR:
        return STR
    if ty == BYTES:
        return INT
    if ty == ND:
        return ND
    if ty[0] == 'tuple':
        r = None
        for x in ty[1:]:
            r = x if r is None else join_ty(r, x)
        return r or ANY
    if ty == FILE:
        return ANY
    return ANY


def _typ(t):
    op, a = t.op, t.a
    if op == 'c':
        v = a[0]
        if v is None:
            return ('none',)
        return {bool: BOOL, int: INT, float: FLOAT, str: STR, bytes: BYTES}.get(type(v), ANY)
    if op == 'sym':
        return a[1]
    if op == 'bv':
        return INT
    if op in ('len', 'count', 'ord', 'size', 'psize', 'ndim', 'max0', 'band', 'bor', 'bxor', 'shl', 'shr', 'calcsize'):
        return INT
    if op in ('eq', 'le0', 'lt0', 'not', 'and', 'or', 'in', 'isnone', 'truth', 'isa', 'forall', 'exists', 'hasattr', 'enumok', 'is'):
        return BOOL
    if op == 'poly':
        r = INT
        for coef, mono in a[0]:
            for f, e in mono:
                x = typ(f)
                if x == ND:
                    return ND
                if x == FLOAT or e < 0:
                    r = FLOAT
                elif x not in (INT, BOOL):
                    r = FLOAT if r == FLOAT else ANY
        return r
    if op in ('mod', 'fdiv'):
        return INT if typ(a[0]) == INT else typ(a[0])
    if op in ('min', 'max'):
        r = None
        for x in a[0] if isinstance(a[0], tuple) else a:
            r = typ(x) if r is None else join_ty(r, typ(x))
        return r or ANY
    if op in ('maxof', 'minof'):
        return elem_ty(typ(a[0]))
    if op == 'sum':
        return typ(a[1]) if typ(a[1]) != BOOL else INT
    if op == 'ite':
        return join_ty(typ(a[1]), typ(a[2]))
    if op == 'tuple':
        return ('tuple',) + tuple(typ(x) for x in a)
    if op == 'list':
        r = None
        for x in a:
            r = typ(x) if r is None else join_ty(r, typ(x))
        return ('list', r or ANY)
    if op in ('map',):
        return ('list', typ(a[1]))
    if op == 'flat':
        return ('list', elem_ty(typ(a[1])))
    if op == 'cat':
        ts = [typ(x) for x in a]
        for k in (STR, BYTES):
            if k in ts:
                return k
        for x in ts:
            if x[0] == 'list':
                r = None
                for y in ts:
                    if y[0] == 'list':
                        r = y[1] if r is None else join_ty(r, y[1])
                return ('list', r)
        return ts[0] if ts else ANY
    if op in ('str', 'fmt', 'decode', 'join', 'strip', 'chr', 'line', 'repr'):
        return STR if op != 'strip' else typ(a[0])
    if op in ('encode', 'pack', 'rdb', 'join_b', 'tobytes'):
        return BYTES
    if op == 'fld':
        return {'?': BOOL, 'f': FLOAT, 'd': FLOAT, 'e': FLOAT, 's': BYTES, 'p': BYTES}.get(a[2], INT)
    if op == 'item':
        bt = typ(a[0])
        if bt[0] == 'opt':
            bt = bt[1]
        if a[1].op == 'slice':
            return bt
        if bt[0] == 'dict':
            return bt[2]
        if bt[0] == 'tuple' and isc(a[1]) and isinstance(cval(a[1]), int):
            try:
                return bt[1:][cval(a[1])]
            except IndexError:
                return ANY
        if bt == ND or (bt[0] == 'cls' and bt[1] & ND_CLASSES):
            return ND
        return elem_ty(bt)
    if op in ('dget',):
        bt = typ(a[0])
        v = bt[2] if bt[0] == 'dict' else ANY
        return join_ty(v, typ(a[2])) if len(a) > 2 else v
    if op in ('dmap', 'dstore', 'dict'):
        return ('dict', ANY, ANY) if op != 'dmap' else ('dict', typ(a[1]), typ(a[2]))
    if op in ('set', 'smap', 'setof'):
        return ('set', elem_ty(typ(a[0]))) if op == 'setof' else ('set', ANY)
    if op in ('dot', 'asum', 'amean', 'norm', 'T', 'reshape', 'ard', 'alloc', 'memmap', 'ver', 'arange', 'asarray', 'astype', 'argpart', 'argsort', 'byteswap', 'ndop', 'frombuf', 'newax'):
        return ND
    if op == 'view':
        return a[1] if isinstance(a[1], tuple) else ND
    if op == 'cast':
        return FLOAT if a[0] in ('float', 'double') else INT
    if op in ('call', 'mcall', 'enumcast'):
        return CALLTY.get(t, ANY)
    if op == 'attr':
        if a[1] in ('size', 'ndim', 'itemsize', 'nbytes'):
            return INT
        if a[1] == 'T':
            return ND
        return ATTRTY.get(t, ANY)
    if op == 'split':
        return ('list', typ(a[0]))
    if op == 'int':
        return INT
    if op == 'float':
        return FLOAT
    if op in ('fold', 'until'):
        return typ(a[1][a[4]])
    if op == 'acc':
        return a[2]
    if op == 'first':
        return typ(a[2])
    if op == 'fobj':
        return FILE
    if op in ('got', 'eofpos'):
        return INT
    if op in ('isat', 'isax', 'setcmp', 'raises', 'eof', 'htole'):
        return BOOL
    if op in ('pad', 'bytes1'):
        return BYTES
    if op in ('sadd', 'setdiff', 'setand', 'union'):
        return ('set', ANY)
    if t in CALLTY:
        return CALLTY[t]
    if op in ('keys', 'setseq', 'dedup'):
        bt = typ(a[0])
        return ('list', bt[1] if bt[0] == 'dict' else elem_ty(bt))
    if op == 'values':
        bt = typ(a[0])
        return ('list', bt[2] if bt[0] == 'dict' else ANY)
    if op == 'items':
        bt = typ(a[0])
        return ('list', ('tuple', bt[1], bt[2]) if bt[0] == 'dict' else ANY)
    if op in ('sorted', 'sortby', 'reversed', 'iter', 'tolist'):
        bt = typ(a[0])
        return bt if bt[0] == 'list' else ('list', elem_ty(bt))
    if op in ('lines', 'rest'):
        return ('list', STR)
    if op == 'resplit':
        return ('list', STR)
    if op == 'rep':
        return typ(a[0])
    if op in ('ddef', 'lstore'):
        return typ(a[0])
    return ANY


ND_CLASSES = set()
CALLTY = {}
ATTRTY = {}


def is_num(t):
    return typ(t) in (INT, FLOAT, BOOL, ND)


def is_strlike(t):
    return typ(t)[0] in ('str', 'bytes', 'list', 'tuple')


# ------------------------------------------------------------------ polynomials
def _p(t):
    """term -> {mono: coef}; mono = sorted tuple of (atom, exp)"""
    if t.op == 'poly':
        return dict((m, c) for c, m in t.a[0])
    if t.op == 'c' and isinstance(t.a[0], (int, float, Fraction)):
        v = t.a[0]
        return {(): int(v) if isinstance(v, bool) else v} if v != 0 else {}
    return {((t, 1),): 1}


def _norm_num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _mkp(d):
    d = {m: _norm_num(c) for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple((c, m) for m, c in sorted(d.items(), key=lambda kv: [(f.id, e) for f, e in kv[0]])))


def add(x, y):
    if x.op == 'ite' and isc(y) and isc(x.a[1]) and isc(x.a[2]):
        pass
    d = dict(_p(x))
    for m, c in _p(y).items():
        d[m] = d.get(m, 0) + c
    return _mkp(d)


def neg(x):
    return _mkp({m: -c for m, c in _p(x).items()})


def sub(x, y):
    return add(x, neg(y))


def _mulmono(m1, m2):
    d = dict(m1)
    for f, e in m2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=lambda fe: fe[0].id))


def mul(x, y):
    d = {}
    for m1, c1 in _p(x).items():
        for m2, c2 in _p(y).items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mkp(d)


def inv(y):
    if isc(y) and isinstance(cval(y), (int, Fraction)) and cval(y) != 0:
        return C(_norm_num(Fraction(1, cval(y))))
    p = _p(y)
    if len(p) == 1:
        (m, c), = p.items()
        if m != ():
            cc = Fraction(1, c) if isinstance(c, (int, Fraction)) else 1 / c
            return _mkp({tuple((f, -e) for f, e in m): cc})
    return _mkp({((y, -1),): 1})


def div(x, y):
    return mul(x, inv(y))


def is_intish(t):
    return typ(t) in (INT, BOOL)


def power(x, y):
    if isc(x) and isc(y):
        try:
            return C(cval(x) ** cval(y))
        except Exception:
            pass
    if isc(y) and isinstance(cval(y), int) and 0 <= cval(y) <= 4:
        r = ONE
        for _ in range(cval(y)):
            r = mul(r, x)
        return r
    if isc(x) and cval(x) == 2:
        return shl(ONE, y)
    return mk('pow', x, y)


def shl(x, y):
    if isc(x) and isc(y) and isinstance(cval(x), int) and cval(y) >= 0:
        return C(cval(x) << cval(y))
    if isc(y):
        return mul(x, C(1 << cval(y)))
    return mul(x, mk('shl', ONE, y)) if x is not ONE else mk('shl', ONE, y)


def shr(x, y):
    if isc(x) and isc(y):
        return C(cval(x) >> cval(y))
    if isc(y) and isinstance(cval(y), int):
        return fdiv(x, C(1 << cval(y)))
    return mk('shr', x, y)


def _all_int_atoms(p):
    return all(is_intish(f) or typ(f) == ANY for m in p for f, e in m)


def mod(x, y):
    if isc(x) and isc(y) and isinstance(cval(x), int) and isinstance(cval(y), int) and cval(y):
        return C(cval(x) % cval(y))
    if isc(y) and isinstance(cval(y), int) and cval(y) > 0:
        m = cval(y)
        p = _p(x)
        if all(isinstance(c, int) for c in p.values()) and all(e > 0 for k in p for f, e in k):
            q = {k: c % m for k, c in p.items()}
            x2 = _mkp(q)
            if isc(x2):
                return mod(x2, y)
            lo, hi = rng(x2)
            if lo is not None and hi is not None and 0 <= lo and hi < m:
                return x2
            if x2.op == 'mod' and x2.a[1] is y:
                return x2
            return mk('mod', x2, y)
    return mk('mod', x, y)


def fdiv(x, y):
    if isc(x) and isc(y) and isinstance(cval(x), int) and isinstance(cval(y), int) and cval(y):
        return C(cval(x) // cval(y))
    if y is ONE:
        return x
    py = _p(y)
    if len(py) == 1:
        (my, cy), = py.items()
        q = {}
        ok = isinstance(cy, int)
        for m, c in _p(x).items():
            if not ok:
                break
            if not isinstance(c, int) or c % cy:
                ok = False
                break
            d = dict(m)
            for f, e in my:
                d[f] = d.get(f, 0) - e
                if d[f] < 0:
                    ok = False
            q[tuple(sorted(((f, e) for f, e in d.items() if e), key=lambda fe: fe[0].id))] = c // cy if ok else 0
        if ok:
            return _mkp(q)
    return mk('fdiv', x, y)


def _ac(op, unit, absorb, x, y, fn):
    if isc(x) and isc(y) and isinstance(cval(x), int) and isinstance(cval(y), int):
        return C(fn(cval(x), cval(y)))
    xs = list(x.a) if x.op == op else [x]
    ys = list(y.a) if y.op == op else [y]
    allx = xs + ys
    cs = [cval(z) for z in allx if isc(z)]
    rest = [z for z in allx if not isc(z)]
    if cs:
        c = cs[0]
        for z in cs[1:]:
            c = fn(c, z)
        if c != unit:
            rest.append(C(c))
    rest.sort(key=lambda z: z.id)
    if op in ('band', 'bor'):
        rest = sorted(set(rest), key=lambda z: z.id)
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


def band(x, y):
    if typ(x) == BOOL and typ(y) == BOOL:
        return and_(x, y)
    return _ac('band', -1, 0, x, y, lambda a, b: a & b)


def bor(x, y):
    if typ(x) == BOOL and typ(y) == BOOL:
        return or_(x, y)
    if typ(x)[0] == 'set' or typ(y)[0] == 'set':
        return mk('union', *sorted((x, y)))
    return _ac('bor', 0, -1, x, y, lambda a, b: a | b)


def bxor(x, y):
    return _ac('bxor', 0, None, x, y, lambda a, b: a ^ b)


# ------------------------------------------------------------------ ranges
CT = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2**15, 2**15 - 1), 'uint16': (0, 2**16 - 1),
      'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1),
      'uint64': (0, 2**64 - 1)}
STRUCT_RNG = {'b': 'int8', 'B': 'uint8', 'h': 'int16', 'H': 'uint16', 'i': 'int32', 'I': 'uint32', 'l': 'int32',
              'L': 'uint32', 'q': 'int64', 'Q': 'uint64'}
ORDER = {}   # class -> how its instances are ordered
RNG = {}   # per-term declared ranges
RNG[INF] = (0, None)


def rng(t):
    """(lo, hi) with None = unbounded"""
    if t in RNG:
        return RNG[t]
    op, a = t.op, t.a
    if op == 'c':
        v = a[0]
        return (v, v) if isinstance(v, (int, float, Fraction)) else (None, None)
    if op in ('len', 'count', 'max0', 'size', 'psize', 'bv', 'ord', 'ndim'):
        return (0, 2**63 - 1) if op != 'ord' else (0, 0x10FFFF)
    if op == 'shl':
        return (0, None)
    if typ(t) == BOOL:
        return (0, 1)
    if op == 'fld' and a[2] in STRUCT_RNG:
        return CT[STRUCT_RNG[a[2]]]
    if op == 'cast' and a[0] in CT:
        return CT[a[0]]
    if op == 'item' and typ(a[0]) == BYTES and a[1].op != 'slice':
        return (0, 255)
    if op == 'mod' and isc(a[1]):
        return (0, cval(a[1]) - 1) if cval(a[1]) > 0 else (None, 0)
    if op == 'mod':
        lo, hi = rng(a[1])
        if lo is not None and lo >= 0:
            return (0, None if hi is None else max(hi - 1, 0))
        return (None, None)
    if op == 'fdiv':
        lo, hi = rng(a[0])
        l2, h2 = rng(a[1])
        if lo is not None and lo >= 0 and l2 is not None and l2 >= 0:
            return (0, hi)
        return (None, None)
    if op in ('min', 'max'):
        rs = [rng(x) for x in a]
        los, his = [r[0] for r in rs], [r[1] for r in rs]
        if op == 'min':
            lo = None if None in los else min(los)
            his = [h for h in his if h is not None]
            return (lo, min(his) if his else None)
        los2 = [x for x in los if x is not None]
        return (max(los2) if los2 else None, None if None in his else max(his))
    if op == 'ite':
        r1, r2 = rng(a[1]), rng(a[2])
        return (None if None in (r1[0], r2[0]) else min(r1[0], r2[0]),
                None if None in (r1[1], r2[1]) else max(r1[1], r2[1]))
    if op == 'sum':
        lo, hi = rng(a[1])
        return (0, None) if lo is not None and lo >= 0 else (None, None)
    if op == 'band':
        rs = [rng(x) for x in a]
        his = [h for l, h in rs if l is not None and l >= 0 and h is not None]
        if any(l is not None and l >= 0 for l, h in rs):
            return (0, min(his) if his else None)
    if op == 'poly':
        lo = hi = 0
        for c, m in a[0]:
            ml, mh = 1, 1
            for f, e in m:
                fl, fh = rng(f)
                if e < 0 or fl is None or fl < 0:
                    if e == 1 and len(m) == 1:
                        ml, mh = fl, fh
                        break
                    ml = mh = None
                    break
                ml = None if ml is None else ml * fl ** e
                mh = None if (mh is None or fh is None) else mh * fh ** e
            if isinstance(c, complex):
                return (None, None)
            if c >= 0:
                l, h = (None if ml is None else c * ml), (None if mh is None else c * mh)
            else:
                l, h = (None if mh is None else c * mh), (None if ml is None else c * ml)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return (lo, hi)
    return (None, None)


def nonneg(t):
    lo, _ = rng(t)
    return lo is not None and lo >= 0


def max0(t):
    if nonneg(t):
        return t
    if isc(t):
        return ZERO
    return mk('max0', t)


def cast(ct, t):
    if ct in CT:
        lo, hi = CT[ct]
        l, h = rng(t)
        if l is not None and h is not None and lo <= l and h <= hi:
            return t
        if isc(t) and isinstance(cval(t), int):
            n = hi - lo + 1
            return C((cval(t) - lo) % n + lo)
        if t.op == 'cast' and t.a[0] == ct:
            return t
    return mk('cast', ct, t)


def minmax(op, xs):
    fl = []
    for x in xs:
        fl.extend(x.a if x.op == op else [x])
    cs = [cval(x) for x in fl if isc(x) and isinstance(cval(x), (int, float))]
    rest = sorted(set(x for x in fl if not (isc(x) and isinstance(cval(x), (int, float)))))
    if cs:
        rest.append(C((min if op == 'min' else max)(cs)))
    # drop dominated
    keep = []
    for x in rest:
        dom = False
        for y in rest:
            if y is x:
                continue
            d = sub(x, y) if op == 'min' else sub(y, x)
            lo, hi = rng(d)
            if lo is not None and lo >= 0 and not (lo == 0 and hi == 0 and rest.index(x) < rest.index(y)):
                dom = True
        if not dom:
            keep.append(x)
    rest = keep or rest
    if len(rest) == 1:
        return rest[0]
    if op == 'max' and len(rest) == 2 and ZERO in rest:
        return max0([x for x in rest if x is not ZERO][0])
    return mk(op, *rest)


# ------------------------------------------------------------------ booleans
def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    if x.op == 'and':
        return or_(*[not_(y) for y in x.a])
    if x.op == 'or':
        return and_(*[not_(y) for y in x.a])
    if x.op == 'ite' and typ(x.a[1]) == BOOL and typ(x.a[2]) == BOOL:
        return ite(x.a[0], not_(x.a[1]), not_(x.a[2]))
    if x.op == 'le0' :
        if typ(x.a[0]) in (INT, BOOL) or typ(x.a[0]) == ANY:
            return le0(add(neg(x.a[0]), ONE))
        return mk('lt0', neg(x.a[0]))
    if x.op == 'lt0':
        return mk('le0', neg(x.a[0]))
    if x.op == 'forall':
        return exists_raw(x.a[0], not_(x.a[1]), x.a[2])
    if x.op == 'exists':
        return forall_raw(x.a[0], not_(x.a[1]), x.a[2])
    return mk('not', x)


def forall_raw(n, body, h):
    if body is TRUE or n is ZERO:
        return TRUE
    return mk('forall', n, body, h)


def exists_raw(n, body, h):
    if body is FALSE or n is ZERO:
        return FALSE
    return mk('exists', n, body, h)


def _andor(op, xs):
    unit, absorb = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    out = []
    for x in xs:
        if x is unit:
            continue
        if x is absorb:
            return absorb
        for y in (x.a if x.op == op else (x,)):
            if y not in out:
                out.append(y)
    s = set(out)
    for x in out:
        if not_(x) in s:
            return absorb
    # absorption: in and(x, or(x,..)) drop; in and(x, or(not x, y)) -> y
    other = 'or' if op == 'and' else 'and'
    ch = False
    res = []
    for x in out:
        if x.op == other:
            if any(y in s for y in x.a):
                ch = True
                continue
            rest = [y for y in x.a if not_(y) not in s]
            if len(rest) != len(x.a):
                ch = True
                res.append((or_ if op == 'and' else and_)(*rest))
                continue
        res.append(x)
    if ch:
        return _andor(op, res)
    # resolution: or(and(a,b), and(not a, b)) -> b  (only pairwise, identical remainder)
    if op == 'or' and len(res) >= 2:
        for i in range(len(res)):
            for j in range(i + 1, len(res)):
                A = set(res[i].a if res[i].op == 'and' else (res[i],))
                B = set(res[j].a if res[j].op == 'and' else (res[j],))
                d1, d2 = A - B, B - A
                if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                    rem = and_(*sorted(A & B))
                    return _andor('or', [r for k, r in enumerate(res) if k not in (i, j)] + [rem])
    # equality chains: and(eq(x,1), eq(x,2)) -> false
    if op == 'and':
        seen = {}
        for x in res:
            if x.op == 'eq' and isc(x.a[1]):
                if x.a[0] in seen and seen[x.a[0]] is not x.a[1]:
                    return FALSE
                seen[x.a[0]] = x.a[1]
        if seen:
            r2 = [x for x in res if not (x.op == 'not' and x.a[0].op == 'eq' and isc(x.a[0].a[1])
                                         and x.a[0].a[0] in seen and seen[x.a[0].a[0]] is not x.a[0].a[1])]
            res = r2
    if not res:
        return unit
    if len(res) == 1:
        return res[0]
    return mk(op, *sorted(res))


def and_(*xs):
    return _andor('and', xs)


def or_(*xs):
    return _andor('or', xs)


def le0(p):
    """p <= 0"""
    if isc(p) and isinstance(cval(p), (int, float, Fraction)):
        return TRUE if cval(p) <= 0 else FALSE
    lo, hi = rng(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    # gcd normalisation for integer polys
    if p.op == 'poly' and typ(p) == INT:
        from math import gcd
        g = 0
        k = 0
        ok = True
        for c, m in p.a[0]:
            if not isinstance(c, int):
                ok = False
                break
            if m == ():
                k = c
            else:
                g = gcd(g, c)
        if ok and g > 1:
            d = {m: c // g for c, m in p.a[0] if m != ()}
            d[()] = -((-k) // g)
            return le0(_mkp(d))
        # -x <= 0 & x nonneg handled by rng;  1 - x <= 0 with x>=0: same as not eq(x,0)
        if ok and len(p.a[0]) == 2 and k == 1:
            (c, m), = [(c, m) for c, m in p.a[0] if m != ()]
            if c == -1:
                x = _mkp({m: 1})
                if nonneg(x):
                    return not_(eq(x, ZERO))
    if nonneg(p):   # p <= 0 with p >= 0
        return eq(p, ZERO)
    return mk('le0', p)


def lt(x, y):
    d = sub(x, y)
    if isc(d) and isinstance(cval(d), (int, float, Fraction)):
        return TRUE if cval(d) < 0 else FALSE
    if typ(d) in (INT, BOOL) and not (d.op == 'poly' and any(not isinstance(c, int) for c, _ in d.a[0])):
        return le0(add(d, ONE))
    return mk('lt0', d)


def le(x, y):
    return le0(sub(x, y))


def _definitely_notnone(t):
    ty = typ(t)
    return t.op not in ('sym', 'call', 'mcall', 'attr', 'item', 'dget', 'ite', 'fold', 'top', 'first', 'param', 'ver', 'view') \
        and t is not NONE and ty[0] not in ('opt', 'none')


NOTNONE = set()


def isnone(x):
    if x is NONE:
        return TRUE
    if x.op == 'ite':
        return ite(x.a[0], isnone(x.a[1]), isnone(x.a[2]))
    if x.op == 'view':
        return isnone(x.a[0])
    if x.op == 'dget' and len(x.a) == 3:
        d, k, dflt = x.a
        if dflt is NONE:
            # a dictionary whose values are never None (declared value type)
            ty = typ(d)
            if ty[0] == 'dict' and ty[2][0] in ('int', 'str', 'float', 'bytes'):
                return not_(mk('in', k, d))
        return mk('isnone', x)
    if _definitely_notnone(x):
        return FALSE
    if typ(x)[0] in ('int', 'str', 'float', 'bytes', 'list', 'tuple', 'dict', 'bool') and x.op in ('item',):
        return FALSE
    if x in NOTNONE or (x.op == 'sym' and len(x.a) > 1 and x.a[0].startswith('!')):
        return FALSE
    return mk('isnone', x)


def eq(x, y):
    if x is y:
        return TRUE
    if x is NONE:
        return isnone(y)
    if y is NONE:
        return isnone(x)
    if isc(x) and isc(y):
        return TRUE if cval(x) == cval(y) and type(cval(x)) in (type(cval(y)), int, float, bool) and (
            isinstance(cval(x), (int, float)) == isinstance(cval(y), (int, float))) else FALSE
    if x.op == 'enum' and y.op == 'enum':
        return FALSE
    if x.op == 'ite' and (isc(y) or y.op == 'enum'):
        return ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
    if y.op == 'ite' and (isc(x) or x.op == 'enum'):
        return ite(y.a[0], eq(x, y.a[1]), eq(x, y.a[2]))
    if x.op == y.op == 'tuple':
        if len(x.a) != len(y.a):
            return FALSE
        return and_(*[eq(p, q) for p, q in zip(x.a, y.a)])
    if typ(x) == BOOL and y in (TRUE, FALSE):
        return x if y is TRUE else not_(x)
    if typ(y) == BOOL and x in (TRUE, FALSE):
        return y if x is TRUE else not_(y)
    # comparison with an empty literal = emptiness test
    for p, q in ((x, y), (y, x)):
        if (p.op == 'list' and not p.a and typ(q)[0] in ('list', 'any')) or (isc(p) and cval(p) in (b'', '') and typ(q) in (STR, BYTES)):
            if q.op == 'list' and q.a:
                return FALSE
            return eq(len_(q), ZERO)
    num = lambda t: typ(t) in (INT, BOOL) or (isc(t) and isinstance(cval(t), (int, float))) or t.op == 'poly'
    if num(x) and num(y):
        d = sub(x, y)
        if isc(d):
            return TRUE if cval(d) == 0 else FALSE
        lo, hi = rng(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
        if d.op == 'poly':
            its = d.a[0]
            # atom == const canonical
            nonc = [(c, m) for c, m in its if m != ()]
            k = sum(c for c, m in its if m == ())
            if len(nonc) == 1 and nonc[0][0] in (1, -1) and len(nonc[0][1]) == 1 and nonc[0][1][0][1] == 1:
                return mk('eq', nonc[0][1][0][0], C(-k * nonc[0][0]))
            if its[0][0] < 0 if not isinstance(its[0][0], complex) else False:
                d = neg(d)
            pos = _mkp({m: c for c, m in d.a[0] if c > 0})
            ngt = _mkp({m: -c for c, m in d.a[0] if c < 0})
            return mk('eq', *sorted((pos, ngt), key=lambda t: (isc(t), t.id)))
        return mk('eq', d, ZERO)
    return mk('eq', *sorted((x, y), key=lambda t: (isc(t), t.id)))


def truth(x):
    if isc(x):
        return TRUE if cval(x) else FALSE
    ty = typ(x)
    if ty == BOOL:
        return x
    if x.op == 'ite':
        return ite(x.a[0], truth(x.a[1]), truth(x.a[2]))
    if ty == INT:
        return not_(eq(x, ZERO))
    if ty[0] in ('list', 'str', 'bytes', 'dict', 'set', 'tuple'):
        return not_(eq(len_(x), ZERO))
    if ty[0] == 'opt' and ty[1][0] in ('int', 'list', 'str', 'bytes', 'dict', 'set', 'tuple'):
        return and_(not_(isnone(x)), mk('truth', x))
    if x.op in ('ref', 'func', 'class', 'bound', 'module', 'enum', 'view'):
        return TRUE
    return mk('truth', x)


def assume(t, atom, val):
    """t with the boolean atom replaced by a truth value."""
    m = {atom: val}
    if val is TRUE or val is FALSE:
        m[not_(atom)] = not_(val)
        if val is TRUE and atom.op == 'eq' and isc(atom.a[1]):
            # x == c : other equalities on x are false
            for s in subterms(t):
                if s.op == 'eq' and s.a[0] is atom.a[0] and isc(s.a[1]) and s is not atom:
                    m[s] = FALSE
                    m[mk('not', s)] = TRUE
    return subst(t, m)


def assume_lits(t, lits):
    for l in lits:
        if isc(t):
            return t
        if l.op == 'and':
            t = assume_lits(t, l.a)
        elif l.op == 'not':
            t = assume(t, l.a[0], FALSE)
        else:
            t = assume(t, l, TRUE)
    return t


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if c.op == 'le0' and not_(c).id < c.id and not_(c).op == 'le0':
        return ite(not_(c), y, x)
    if c.op == 'ite' and typ(c) == BOOL:
        pass
    if has(x, c) or has(x, not_(c)):
        x = assume(x, c, TRUE)
    if has(y, c) or has(y, not_(c)):
        y = assume(y, c, FALSE)
    if c.op == 'and':
        for l in c.a:
            if has(x, l) or has(x, not_(l)):
                x = assume(x, l, TRUE)
    if c.op == 'or':
        for l in c.a:
            if has(y, l) or has(y, not_(l)):
                y = assume(y, l, FALSE)
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return not_(c)
    if typ(x) == BOOL and typ(y) == BOOL:
        if x is TRUE:
            return or_(c, y)
        if x is FALSE:
            return and_(not_(c), y)
        if y is TRUE:
            return or_(not_(c), x)
        if y is FALSE:
            return and_(c, x)
    # x if x is not None else y, on None
    if c.op == 'isnone' and c.a[0] is y and x is NONE:
        return y
    if c.op == 'eq' and {x, y} == {c.a[0], c.a[1]}:
        return y
    # min/max via ite
    if c.op == 'le0':
        d = c.a[0]
        if typ(x) == INT and typ(y) == INT:
            s = sub(x, y)
            if s is d:
                return minmax('min', [x, y])
            if s is add(d, C(-1)) or (add(s, ONE) is d):
                return minmax('min', [x, y])
            if neg(s) is d:
                return minmax('max', [x, y])
            if add(neg(s), ONE) is d:
                return minmax('max', [x, y])
    # ite(c, ite(d,a,b), b) -> ite(c and d, a, b)
    if x.op == 'ite' and x.a[2] is y:
        return ite(and_(c, x.a[0]), x.a[1], y)
    if x.op == 'ite' and x.a[1] is y:
        return ite(and_(c, not_(x.a[0])), x.a[2], y)
    if y.op == 'ite' and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    if y.op == 'ite' and y.a[2] is x:
        return ite(or_(c, not_(y.a[0])), x, y.a[1])
    return mk('ite', c, x, y)


# ------------------------------------------------------------------ structure
def children(t):
    op = t.op
    if op in ('c', 'sym', 'bv', 'ref', 'func', 'class', 'module', 'enum', 'builtin', 'ext', 'top'):
        return ()
    if op == 'poly':
        return tuple(f for c, m in t.a[0] for f, e in m)
    out = []
    _flat(t.a, out)
    return tuple(out)


def _flat(x, out):
    for y in x:
        if isinstance(y, T):
            out.append(y)
        elif isinstance(y, tuple) and not (y and isinstance(y[0], str) and y[0] in _TYTAGS and _is_type(y)):
            _flat(y, out)


_TYTAGS = {'int', 'float', 'bool', 'str', 'bytes', 'list', 'dict', 'set', 'tuple', 'cls', 'nd', 'file', 'opt', 'any', 'none', 'seq'}


def _is_type(y):
    return all(isinstance(z, (str, frozenset)) or (isinstance(z, tuple) and _is_type(z)) for z in y)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


_hasc = {}


def _closure(t):
    r = _hasc.get(t)
    if r is None:
        r = frozenset(subterms(t))
        _hasc[t] = r
    return r


def has(t, s):
    return s in _closure(t)


def subst(t, m):
    if not m:
        return t
    keys = set(m)
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if keys.isdisjoint(_closure(x)):
            memo[x] = x
            return x
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def _mapargs(a, f):
    out = []
    for y in a:
        if isinstance(y, T):
            out.append(f(y))
        elif isinstance(y, tuple) and not (y and isinstance(y[0], str) and y[0] in _TYTAGS and _is_type(y)):
            out.append(_mapargs(y, f))
        else:
            out.append(y)
    return tuple(out)


def rebuild(x, f):
    op = x.op
    if op == 'poly':
        r = ZERO
        for c, m in x.a[0]:
            t = C(c)
            for g, e in m:
                g2 = f(g)
                if e > 0:
                    for _ in range(e):
                        t = mul(t, g2)
                else:
                    for _ in range(-e):
                        t = mul(t, inv(g2))
            r = add(r, t)
        return r
    if op in QOPS:
        return _rebuild_q(x, f)
    a = _mapargs(x.a, f)
    return build(op, a, x)


def build(op, a, orig=None):
    fn = BUILD.get(op)
    if fn:
        return fn(*a)
    t = mk(op, *a)
    if orig is not None:
        if orig in CALLTY and t not in CALLTY:
            CALLTY[t] = CALLTY[orig]
        if orig in ATTRTY and t not in ATTRTY:
            ATTRTY[t] = ATTRTY[orig]
        if orig in RNG and t not in RNG:
            RNG[t] = RNG[orig]
    return t


# ------------------------------------------------------------------ sequences
def tup(*xs):
    return mk('tuple', *xs)


def lst(*xs):
    return mk('list', *xs)


def cat(*xs):
    """sequence / string concatenation"""
    out = []
    for x in xs:
        for y in (x.a if x.op == 'cat' else (x,)):
            if isc(y) and cval(y) in ('', b''):
                continue
            if y.op in ('list', 'tuple') and not y.a:
                continue
            if out and isc(out[-1]) and isc(y) and type(cval(out[-1])) is type(cval(y)):
                out[-1] = C(cval(out[-1]) + cval(y))
                continue
            if out and out[-1].op == y.op and y.op in ('list', 'tuple'):
                out[-1] = mk(y.op, *(out[-1].a + y.a))
                continue
            out.append(y)
    if not out:
        if xs and (typ(xs[0]) == STR):
            return C('')
        if xs and (typ(xs[0]) == BYTES):
            return C(b'')
        return xs[0] if xs else lst()
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


_bn = [0]


def fresh_binder():
    _bn[0] += 1
    return mk('sym', '%%b%d' % _bn[0], INT)


def binder_sym(t):
    return t.op == 'sym' and t.a[0].startswith('%b')


QOPS = ('map', 'flat', 'sum', 'dmap', 'forall', 'exists', 'fold', 'first', 'until', 'smap')
_hc = {}


def _height(t):
    """nesting height of the quantifiers bound inside t"""
    r = _hc.get(t)
    if r is None:
        r = 0
        for c in children(t):
            x = _height(c)
            if x > r:
                r = x
        if t.op in QOPS:
            r = max(r, t.a[-1])
        _hc[t] = r
    return r


def q(op, n, b, *bodies):
    """quantified constructor: op over b in [0,n)"""
    h = 1 + max([_height(x) for x in bodies] + [0])
    v = mk('bv', h)
    return build(op, (n,) + tuple(subst(x, {b: v}) for x in bodies) + (h,))


def _rebuild_q(x, f):
    """capture-avoiding rebuild of a quantified term"""
    h = x.a[-1]
    b = fresh_binder()
    v = mk('bv', h)
    m = {v: b}
    if x.op in ('fold', 'until'):
        n, inits, nexts, cond, idx = x.a[:5]
        accs = [sym('%%a%d.%d' % (_bn[0], j), typ(inits[j])) for j in range(len(inits))]
        for j, s in enumerate(accs):
            m[mk('acc', h, j, typ(inits[j]))] = s
        nexts2 = [f(subst(y, m)) for y in nexts]
        cond2 = f(subst(cond, m))
        return mkfold(x.op, f(n), [f(y) for y in inits], accs, nexts2, cond2, idx, b)
    bodies = [f(subst(y, m)) for y in x.a[1:-1]]
    return q(x.op, f(x.a[0]), b, *bodies)


def mkfold(op, n, inits, accs, nexts, cond, idx, b):
    """iterate (acc_j := next_j) for b in [0,n) (until: stop when cond); value of acc idx"""
    h = 1 + max([_height(x) for x in list(nexts) + [cond]] + [0])
    m = {b: mk('bv', h)}
    for j, s in enumerate(accs):
        m[s] = mk('acc', h, j, typ(inits[j]))
    return mk(op, n, tuple(inits), tuple(subst(x, m) for x in nexts), subst(cond, m), idx, h)


# quantified terms carry the binder level h as last argument
def mkmap(n, body, h):
    v = mk('bv', h)
    if n is ZERO:
        return lst()
    if body.op == 'item' and body.a[1] is v and not has(body.a[0], v) and n is len_(body.a[0]) and typ(body.a[0])[0] == 'list':
        return body.a[0]
    if isc(n) and isinstance(cval(n), int) and 0 <= cval(n) <= 16:
        return lst(*[subst(body, {v: C(i)}) for i in range(cval(n))])
    if body is v:
        return mk('map', n, body, h)
    return mk('map', n, body, h)


def mkflat(n, body, h):
    v = mk('bv', h)
    if n is ZERO:
        return lst()
    if body.op in ('list', 'tuple'):
        if not body.a:
            return lst()
        if len(body.a) == 1:
            return mkmap(n, body.a[0], h)
    if isc(n) and isinstance(cval(n), int) and 0 <= cval(n) <= 16:
        return cat(*[subst(body, {v: C(i)}) for i in range(cval(n))])
    return mk('flat', n, body, h)


def mksum(n, body, h):
    v = mk('bv', h)
    if n is ZERO or body is ZERO:
        return ZERO
    if not has(body, v):
        return mul(n, body)
    if body.op == 'poly':
        r = ZERO
        if len(body.a[0]) == 1 and body.a[0][0][0] == 1 and all(has(f, v) for f, e in body.a[0][0][1]):
            return mk('sum', n, body, h)
        for c, m in body.a[0]:
            inner = [(f, e) for f, e in m if has(f, v)]
            outer = [(f, e) for f, e in m if not has(f, v)]
            s = C(c)
            for f, e in outer:
                for _ in range(abs(e)):
                    s = mul(s, f if e > 0 else inv(f))
            if inner:
                t = _mkp({tuple(inner): 1})
                s = mul(s, mksum(n, t, h))
            else:
                s = mul(s, n)
            r = add(r, s)
        return r
    return mk('sum', n, body, h)


def mkdmap(n, k, v, h):
    return mk('dmap', n, k, v, h)


def apply_b(t, i):
    """body of a quantified term at index i"""
    h = t.a[-1]
    v = mk('bv', h)
    return [subst(x, {v: i}) for x in t.a[1:-1]]


def qmap(n, b, body):
    return q('map', n, b, body)


def qflat(n, b, body):
    return q('flat', n, b, body)


def qsum(n, b, body):
    return q('sum', n, b, body)


def qdmap(n, b, k, v):
    return q('dmap', n, b, k, v)


def qforall(n, b, body):
    if not has(body, b):
        return or_(eq(n, ZERO), body)
    return q('forall', n, b, body)


def qexists(n, b, body):
    return not_(qforall(n, b, not_(body)))


def len_(x):
    op = x.op
    if op in ('tuple', 'list'):
        return C(len(x.a))
    if isc(x) and isinstance(cval(x), (str, bytes)):
        return C(len(cval(x)))
    if op == 'map':
        return x.a[0]
    if op == 'flat':
        h = x.a[2]
        return mksum(x.a[0], len_(x.a[1]), h)
    if op == 'cat':
        r = ZERO
        for y in x.a:
            r = add(r, len_(y))
        return r
    if op == 'ite':
        return ite(x.a[0], len_(x.a[1]), len_(x.a[2]))
    if op == 'rdb':
        return x.a[3] if CFG['full_reads'] else mk('len', x)
    if op == 'dmap' and CFG['distinct']:
        return x.a[0]
    if op == 'setof' and CFG['distinct']:
        return mk('len', x)
    if op == 'pack':
        return CALCSIZE(x.a[0])
    if op == 'view':
        return len_(x.a[0])
    if op == 'pad':
        return x.a[0]
    if op == 'rep' and len(x.a) > 1:
        return mul(len_(x.a[0]), max0(x.a[1]))
    if op == 'item' and x.a[1].op == 'slice':
        base, (lo, hi, st) = x.a[0], x.a[1].a
        if st is NONE and hi is NONE and isc(lo) and isinstance(cval(lo), int) and cval(lo) >= 0:
            L = len_(base)
            if L.op == 'len':
                return mk('max0', sub(L, lo))
            return max0(sub(L, lo))
    if op in ('keys', 'items', 'values', 'iter', 'sorted', 'sortby', 'tolist', 'reversed'):
        return len_(x.a[0])
    return mk('len', x)


CFG = {'full_reads': True, 'distinct': True}
CALCSIZE = lambda f: mk('calcsize', f)


def slc(a, b, c=NONE):
    if a is ZERO:
        a = NONE
    if c is ONE:
        c = NONE
    return mk('slice', a, b, c)


def match_hole(pat, hole, t):
    """x with pat[hole:=x] == t, or None"""
    got = []

    def go(p, u):
        if p is hole:
            got.append(u)
            return True
        if p is u:
            return True
        if not has(p, hole) or p.op != u.op or len(p.a) != len(u.a):
            return False
        if p.op in ('poly', 'sym', 'c') or p.op in QOPS:
            return False
        return all(goa(a, b) for a, b in zip(p.a, u.a))

    def goa(a, b):
        if isinstance(a, T) and isinstance(b, T):
            return go(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(goa(x, y) for x, y in zip(a, b))
        return a == b
    if not go(pat, t):
        return None
    if not got or any(g is not got[0] for g in got):
        return None
    return got[0]


def item(x, i):
    op = x.op
    if i.op == 'ite' and op in ('tuple', 'list'):
        return ite(i.a[0], item(x, i.a[1]), item(x, i.a[2]))
    if isc(i) and isinstance(cval(i), bool):
        i = C(int(cval(i)))
    ci = cval(i) if isc(i) and isinstance(cval(i), int) else None
    if op in ('tuple', 'list') and ci is not None and -len(x.a) <= ci < len(x.a):
        return x.a[ci]
    if isc(x) and isinstance(cval(x), (str, bytes)) and ci is not None and -len(cval(x)) <= ci < len(cval(x)):
        return C(cval(x)[ci])
    if i.op == 'slice':
        lo, hi, st = i.a
        if lo is NONE and hi is NONE and st is NONE and op in ('tuple', 'c'):
            return x
        cs = [None if z is NONE else (cval(z) if isc(z) else '?') for z in (lo, hi, st)]
        if '?' not in cs:
            s = slice(*cs)
            if op in ('tuple', 'list'):
                return mk(op, *x.a[s])
            if isc(x) and isinstance(cval(x), (str, bytes)):
                return C(cval(x)[s])
    if op == 'ite':
        y = x.a[1], x.a[2]
        if any(z.op in ('tuple', 'list', 'map', 'ite', 'c') for z in y):
            return ite(x.a[0], item(y[0], i), item(y[1], i))
    if op == 'map' and i.op != 'slice' and (typ(i) == INT) and (nonneg(i) or ci is None):
        return apply_b(x, i)[0]
    if op == 'item' and x.a[1].op == 'slice' and i.op != 'slice' and i.op != 'tuple':
        lo, hi, st = x.a[1].a
        if st is NONE and (lo is NONE or nonneg(lo)) and typ(i) == INT and nonneg(i):
            return item(x.a[0], add(i, ZERO if lo is NONE else lo))
    if op == 'cat' and ci is not None and ci >= 0:
        rest = ci
        for y in x.a:
            L = len_(y)
            if isc(L):
                if rest < cval(L):
                    return item(y, C(rest))
                rest -= cval(L)
            else:
                break
    if op == 'view' and i.op != 'slice':
        return item(x.a[0], i)
    if op == 'dmap' and CFG['distinct']:
        # lookup of the key expression itself
        r = match_hole(x.a[1], mk('bv', x.a[-1]), i)
        if r is not None:
            return apply_b(x, r)[1]
    if op == 'dict' and (isc(i)):
        for k, v in x.a:
            if k is i:
                return v
    if op == 'dstore':
        e = eq(x.a[1], i)
        if e is TRUE:
            return x.a[2]
        if e is FALSE:
            return item(x.a[0], i)
    if op in ('iter', 'tolist') and i.op != 'slice':
        return item(x.a[0], i)
    return mk('item', x, i)


def enc(x, e, errors=None):
    if errors is not None:
        return mk('encode', x, e, errors)
    if isc(x) and isinstance(cval(x), str):
        return C(cval(x).encode(e))
    return mk('encode', x, e)


def dec(x, e, errors='strict'):
    if isc(x) and isinstance(cval(x), bytes):
        try:
            return C(cval(x).decode(e))
        except UnicodeDecodeError:
            pass
    if x.op == 'encode' and x.a[1] == e and len(x.a) == 2:
        return x.a[0]
    return mk('decode', x, e, errors)


def in_(k, c):
    if isc(k) and c.op in ('tuple', 'list', 'set') and all(isc(z) for z in c.a):
        return TRUE if any(eq(k, z) is TRUE for z in c.a) else FALSE
    if c.op in ('tuple', 'list', 'set'):
        return or_(*[eq(k, z) for z in c.a])
    if isc(k) and isc(c) and isinstance(cval(c), (str, bytes)) and type(cval(k)) is type(cval(c)):
        return TRUE if cval(k) in cval(c) else FALSE
    if c.op == 'dict':
        return or_(*[eq(k, z) for z, _ in c.a])
    if c.op == 'dstore':
        return or_(eq(k, c.a[1]), in_(k, c.a[0]))
    if c.op == 'dmap' or c.op == 'map':
        r = match_hole(c.a[1], mk('bv', c.a[-1]), k)
        if r is not None and (binder_sym(r) or r.op == 'bv'):
            return TRUE
    if c.op == 'setof':
        return in_(k, c.a[0])
    if c.op in ('keys', 'iter'):
        return in_(k, c.a[0])
    if c.op == 'ite':
        return ite(c.a[0], in_(k, c.a[1]), in_(k, c.a[2]))
    if c.op == 'cat' and typ(c)[0] in ('list', 'tuple'):
        return or_(*[in_(k, z) for z in c.a])
    return mk('in', k, c)


def _b_item(x, i): return item(x, i)


BUILD = {
    'ite': ite, 'not': not_, 'and': and_, 'or': or_, 'eq': eq, 'le0': le0,
    'lt0': lambda p: (TRUE if cval(p) < 0 else FALSE) if isc(p) else mk('lt0', p),
    'mod': mod, 'fdiv': fdiv, 'band': lambda *x: _fold2(band, x), 'bor': lambda *x: _fold2(bor, x),
    'bxor': lambda *x: _fold2(bxor, x), 'shl': shl, 'shr': shr, 'pow': power,
    'max0': max0, 'min': lambda *x: minmax('min', x), 'max': lambda *x: minmax('max', x),
    'len': len_, 'item': _b_item, 'cat': cat, 'map': mkmap, 'flat': mkflat, 'sum': mksum, 'dmap': mkdmap,
    'encode': enc, 'decode': dec, 'in': in_, 'isnone': isnone, 'truth': truth, 'cast': cast,
    'forall': forall_raw, 'exists': exists_raw, 'slice': slc, 'c': lambda v: C(v),
}


def _fold2(f, xs):
    r = xs[0]
    for y in xs[1:]:
        r = f(r, y)
    return r


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 12:
        return '...'
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == 'c':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'poly':
        out = []
        for c, m in a[0]:
            fs = '*'.join((s(f) if f.op not in ('poly',) else '(' + s(f) + ')') + ('' if e == 1 else '**%d' % e) for f, e in m)
            out.append((fs if c == 1 else ('-' + fs if c == -1 else '%s*%s' % (c, fs))) if fs else str(c))
        return '(' + ' + '.join(out) + ')'
    if op == 'le0':
        p = _p(a[0])
        l = _mkp({m: c for m, c in p.items() if c > 0})
        r = _mkp({m: -c for m, c in p.items() if c < 0})
        return '%s <= %s' % (s(l), s(r))
    if op == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'not':
        return 'not(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in (a if a[2] is not NONE else a[:2]))
    if op == 'isnone':
        return '%s is None' % s(a[0])
    if op in ('map', 'flat', 'sum'):
        return '%s(%s for i%d<%s)' % (op, s(a[1]), a[2], s(a[0]))
    if op in ('tuple', 'list'):
        return ('(%s)' if op == 'tuple' else '[%s]') % ', '.join(s(x) for x in a)
    if op == 'view':
        return s(a[0])
    if op == 'call':
        return '%s(%s)' % (a[0].split('.')[-1], ', '.join((k + '=' if k else '') + s(v) for k, v in a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))


# library functions whose result depends on the process, the machine or the moment
AMBIENT = ('random.', 'time.', 'datetime.', 'uuid.', 'secrets.', 'numpy.random.', 'os.urandom', 'os.getpid', 'os.environ', 'os.getenv', 'locale.', 'tempfile.', 'socket.', 'platform.', 'os.listdir', 'os.scandir', 'os.stat', 'os.times', 'os.getcwd', 'glob.', 'builtins.id', 'builtins.hash')
