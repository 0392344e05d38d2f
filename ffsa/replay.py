"""Interpretation of an extracted effect trace over sample values.

The trace (a term-level summary of a function, loops included) is walked in
order; reads take their values from sample file contents, writes are collected.
Only terms are evaluated, never code of the analysed program.
"""
import struct
from fractions import Fraction
from . import arrays as A
from .terms import *
from .equiv import Env, NoEval, U, F, ERR
from .models import dtype_of, itemsize

CAP = 4000


class Sw:
    """a number read or written in the other byte order"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Sw) and o.v == self.v

    def __hash__(self):
        return hash(('Sw', self.v))

    def __repr__(self):
        return 'swapped(%s)' % (self.v,)

    def _op(self, *o):
        return Sw(hash(('op', self.v) + tuple(repr(x) for x in o)) % 1000003)
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = _op


def failed(x):
    return isinstance(x, U) and x == ERR


def swap(x):
    return x.v if isinstance(x, Sw) else Sw(x)


class Raised(Exception):
    def __init__(self, exc, loc=None):
        Exception.__init__(self, exc)
        self.exc, self.loc = exc, loc


class Break(Exception):
    pass


class Out:
    """what was written to one file: bytes and number cells"""

    def __init__(self):
        self.cells = []
        self.path = self.mode = None

    def put(self, x):
        self.cells.append(x)

    def norm(self):
        """bytes joined; numbers as (dtype, value)"""
        out = []
        for c in self.cells:
            if isinstance(c, bytes) and out and isinstance(out[-1], bytes):
                out[-1] = out[-1] + c
            elif c != b'':
                out.append(c)
        return out


class Replay:
    def __init__(self, I, env, content=b'', big=False):
        self.I, self.env, self.content = I, env, content
        env.reads = {}
        env.iters = {}
        env.big = big
        self.big = big
        self.files = {}
        self.opened = []
        self.out = {}
        self.order = []
        self.closed = set()

    # -- walking
    def run(self, trace):
        try:
            self.block(trace, {})
            return None
        except Raised as r:
            return r

    def block(self, evs, b):
        for e in evs:
            if not self.holds(e, b):
                continue
            k = 'k_' + e.kind
            if hasattr(self, k):
                getattr(self, k)(e, b)

    def holds(self, e, b):
        for l, t in e.pc:
            try:
                if not self.env.truth(self.env.ev(l, b)):
                    return False
            except NoEval:
                if t == 'branch':
                    raise
        return True

    def k_loop(self, e, b):
        n = e.d['n']
        cnt = CAP if n is INF else self.env.ev(n, b)
        if failed(cnt):
            raise Raised('an exception', e.loc)
        if not isinstance(cnt, int) or cnt > CAP:
            raise NoEval()
        v = e.d['b']
        its = self.env.iters
        for i in range(cnt):
            bb = dict(b)
            bb[('sym', v.a[0])] = i
            its[('sym', v.a[0])] = i + 1
            try:
                self.block(e.body or [], bb)
            except Break:
                return
            if e.d.get('ret') is not None and self.env.truth(self.env.ev(e.d['ret'], bb)):
                return
            if e.d.get('brk') not in (None, FALSE) and self.env.truth(self.env.ev(e.d['brk'], bb)):
                return
        if n is INF:
            raise NoEval()

    def k_break(self, e, b):
        raise Break()

    def k_raise(self, e, b):
        raise Raised(str(e.d.get('exc')), e.loc)

    def k_assert(self, e, b):
        c = e.d['cond']
        try:
            v = self.env.truth(self.env.ev(c, b))
        except NoEval:
            return
        if not v:
            raise Raised('AssertionError', e.loc)

    def k_need(self, e, b):
        try:
            v = self.env.truth(self.env.ev(e.d['cond'], b))
        except NoEval:
            return
        if not v:
            raise Raised('TypeError', e.loc)

    def k_exit(self, e, b):
        raise Raised('SystemExit', e.loc)

    # -- files
    def k_open(self, e, b):
        f = e.d['file']
        mode = self.env.ev(e.d['mode'], b)
        self.opened.append((self.env.ev(e.d['path'], b), mode))
        st = {'mode': mode, 'pos': 0, 'enc': None}
        if 'b' not in mode:
            enc, er = self.env.ev(e.d['encoding'], b), self.env.ev(e.d['errors'], b)
            st['enc'], st['err'] = enc, er or 'strict'
            st['nl'] = self.env.ev(e.d['newline'], b) if 'newline' in e.d else None
        if 'r' in mode:
            if 'b' not in mode:
                st['lines'] = None
        else:
            o = Out()
            o.path, o.mode = self.opened[-1][0], mode
            self.out[f] = o
        self.files[f] = st

    def k_close(self, e, b):
        self.closed.add(e.d['file'])

    def file(self, f):
        if f not in self.files:
            raise NoEval()
        return self.files[f]

    def lines(self, st):
        if st['lines'] is None:
            if str(st['enc']).lower().replace('-', '').replace('_', '') not in ('utf8', 'ascii', 'latin1', 'utf8sig'):
                raise NoEval()          # the locale decides
            try:
                t = self.content.decode(st['enc'], st['err'])
            except UnicodeDecodeError:
                # decoding happens in blocks: a sample file is one block
                raise Raised('UnicodeDecodeError')
            if st['nl'] is None:
                t = t.replace('\r\n', '\n').replace('\r', '\n')
            elif st['nl'] != '':
                raise NoEval()
            ls = t.split('\n')
            st['lines'] = [x + '\n' for x in ls[:-1]] + ([ls[-1]] if ls[-1] else [])
        return st['lines']

    def idx(self, t, b):
        return (t.op, t.a[0], t.a[1], tuple(self.env.ev(x, b) for x in t.a[2]))

    def k_read(self, e, b):
        st = self.file(e.d['file'])
        if st['enc'] is not None:
            raise NoEval()
        n = e.d['n']
        rest = len(self.content) - st['pos']
        k = rest if n.op == 'rest' else self.env.ev(n, b)
        if not isinstance(k, int):
            raise NoEval()
        if k < 0:
            k = rest
        d = self.content[st['pos']:st['pos'] + k]
        if len(d) < k and rest >= 0 and not self.short:
            raise Raised('EOF', e.loc)
        st['pos'] += len(d)
        self.env.reads[self.idx(e.d['buf'], b)] = d
    short = False

    def k_rarr(self, e, b):
        st = self.file(e.d['file'])
        d = dtype_of(e.d['dtype'])
        cnt = self.env.ev(e.d['count'], b)
        if d is None or not isinstance(cnt, int):
            raise NoEval()
        o, ty = ('=', d) if d[0] not in '<>=|' else (d[0], d[1:])
        code = {'f4': 'f', 'f8': 'd', 'u1': 'B', 'u4': 'I', 'u8': 'Q', 'i1': 'b', 'i4': 'i', 'i8': 'q', 'u2': 'H', 'i2': 'h', 'f2': 'e'}.get(ty)
        if code is None:
            raise NoEval()
        sz = struct.calcsize('<' + code)
        if cnt < 0:
            cnt = (len(self.content) - st['pos']) // sz
        raw = self.content[st['pos']:st['pos'] + cnt * sz]
        if self.short and len(raw) < cnt * sz:
            cnt = len(raw) // sz
            raw = raw[:cnt * sz]
        if len(raw) < cnt * sz:
            raise Raised('EOF', e.loc)
        st['pos'] += cnt * sz
        big = o == '>' or o == '=' and self.big
        vs = struct.unpack('<%d%s' % (cnt, code), raw)
        if any(v != v or v in (float('inf'), float('-inf')) for v in vs if isinstance(v, float)):
            raise NoEval()
        vs = [A.norm_scalar(Fraction(v)) if isinstance(v, float) else v for v in vs]
        if big and sz > 1:
            vs = [swap(v) for v in vs]
        self.env.reads[self.idx(e.d['arr'], b)] = A.obj((cnt,), vs)

    def k_readline(self, e, b):
        st = self.file(e.d['file'])
        if st['enc'] is None:
            i = self.content.find(b'\n', st['pos'])
            i = len(self.content) if i < 0 else i + 1
            v = self.content[st['pos']:i]
            st['pos'] = i
        else:
            ls = self.lines(st)
            v = ls[st['pos']] if st['pos'] < len(ls) else ''
            st['pos'] += 1 if st['pos'] < len(ls) else 0
        self.env.reads[self.idx(e.d['line'], b)] = v

    def k_readlines(self, e, b):
        st = self.file(e.d['file'])
        if st['enc'] is None:
            rest = self.content[st['pos']:]
            v = tuple(rest.splitlines(True)) if b'\r' not in rest else tuple(x + b'\n' for x in rest.split(b'\n')[:-1])
            st['pos'] = len(self.content)
        else:
            v = tuple(self.lines(st)[st['pos']:])
            st['pos'] = len(self.lines(st))
        self.env.reads[self.idx(e.d['lines'], b)] = v

    def k_seek(self, e, b):
        st = self.file(e.d['file'])
        off, wh = self.env.ev(e.d['off'], b), self.env.ev(e.d['whence'], b)
        if not isinstance(off, int):
            raise NoEval()
        if st['enc'] is not None and (off or wh):
            raise NoEval()
        st['pos'] = off if wh == 0 else st['pos'] + off if wh == 1 else len(self.content) + off

    def k_decode(self, e, b):
        v = self.env.ev(e.d['value'], b)
        enc, er = self.env.ev(e.d['encoding'], b), self.env.ev(e.d['errors'], b)
        if isinstance(v, bytes):
            try:
                v.decode(enc, er or 'strict')
            except UnicodeDecodeError:
                raise Raised('UnicodeDecodeError', e.loc)
            except LookupError:
                raise Raised('LookupError', e.loc)

    def k_encode(self, e, b):
        v = self.env.ev(e.d['value'], b)
        enc, er = self.env.ev(e.d['encoding'], b), self.env.ev(e.d['errors'], b)
        if isinstance(v, str):
            try:
                v.encode(enc, er or 'strict')
            except UnicodeEncodeError:
                raise Raised('UnicodeEncodeError', e.loc)

    def k_unpackn(self, e, b):
        try:
            v = self.env.ev(e.d['value'], b)
        except NoEval:
            return
        n = self.env.ev(e.d['n'], b)
        if failed(v) or isinstance(v, tuple) and any(failed(x) for x in v):
            raise Raised('an exception', e.loc)
        if isinstance(v, tuple) and isinstance(n, int) and len(v) != n:
            raise Raised('ValueError', e.loc)

    # -- output
    def k_write(self, e, b):
        f = e.d['file']
        st = self.file(f)
        v = self.env.ev(e.d['data'], b)
        if isinstance(v, str):
            if st['enc'] is None:
                raise Raised('TypeError' if 'b' in st['mode'] else 'locale', e.loc)
            v = v.encode(st['enc'], st['err'])
        elif st['enc'] is not None:
            raise Raised('TypeError', e.loc) if isinstance(v, bytes) else NoEval()
        if not isinstance(v, bytes):
            raise NoEval()
        self.out[f].put(v)

    def k_warr(self, e, b):
        f = e.d['file']
        st = self.file(f)
        if st['enc'] is not None:
            raise Raised('TypeError', e.loc)
        arr = e.d['arr']
        v = self.env.ev(arr, b)
        d = dtype_of(self.I.dtype_term(arr))
        if d is None or not (A.is_arr(v) or A.num(v)):
            raise NoEval()
        o, ty = ('=', d) if d[0] not in '<>=|' else (d[0], d[1:])
        big = o == '>' or o == '=' and self.big
        vs = list(v.reshape(-1)) if A.is_arr(v) else [v]
        for x in vs:
            self.out[f].put((ty, swap(x) if big and itemsize(d) > 1 else x))
