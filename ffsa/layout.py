"""Byte layouts: writer and reader effect traces, and their alignment."""
from .terms import *
from .terms import _closure
from .models import fmt_offsets, SIZES, dtype_of, itemsize
from .interp import walk_events
from .equiv import equal, differ


class Mis(Exception):
    """definite mismatch between writer and reader"""

    def __init__(self, msg, wloc=None, rloc=None):
        Exception.__init__(self, msg)
        self.msg, self.wloc, self.rloc = msg, wloc, rloc


class Und(Exception):
    """outside what the aligner understands"""


class Item:
    __slots__ = ('k', 'size', 'code', 'order', 'val', 'cnt', 'n', 'b', 'body', 'g', 'loc', 'pos', 'ev')

    def __init__(self, k, size, loc=None, **kw):
        self.k, self.size, self.loc = k, size, loc
        for s in ('code', 'order', 'val', 'cnt', 'n', 'b', 'body', 'pos', 'ev'):
            setattr(self, s, kw.get(s))
        self.g = kw.get('g', ())

    def sub(self, m):
        if not m:
            return self
        s = lambda x: subst(x, m) if isinstance(x, T) else x
        i = Item(self.k, s(self.size), self.loc, code=self.code, order=self.order, val=s(self.val), cnt=s(self.cnt), n=s(self.n), b=self.b,
                 body=[x.sub(m) for x in self.body] if self.body is not None else None, pos=s(self.pos), ev=self.ev)
        i.g = tuple(s(x) for x in self.g)
        return i

    def __repr__(self):
        x = {'prim': lambda: '%s%s %s' % (self.order, self.code, self.val), 'bytes': lambda: str(self.val), 'pad': lambda: str(self.size),
             'arr': lambda: str(self.val), 'loop': lambda: '%s %s: %s' % (self.b, self.n, self.body)}.get(self.k, lambda: '')()
        return '<%s %s%s>' % (self.k, x, ' if ' + ' & '.join(map(str, self.g)) if self.g else '')


def rel_guards(e, base):
    return tuple(l for l, t in e.pc if t == 'branch' and (l, t) not in base)


# ------------------------------------------------------------------ writer side
def prims_of(fmt, args, loc):
    if fmt.op != 'sfmt':
        raise Und('format %s is not static' % fmt)
    offs, tot = fmt_offsets(fmt.a[0], fmt.a[1])
    if offs is None:
        raise Und('format %s' % fmt)
    args = list(args)
    out = []
    cur = ZERO
    for off, cnt, code, sz in offs:
        if off is not cur:
            out.append(Item('pad', sub(off, cur), loc))
        cur = add(off, mul(cnt, C(sz)))
        if code == 'x':
            if cnt is not ZERO:
                out.append(Item('pad', cnt, loc))
            continue
        if code in 'sp':
            out.append(Item('bytes', cnt, loc, val=args.pop(0) if args else NONE))
            continue
        if isc(cnt):
            for j in range(cval(cnt)):
                if not args:
                    raise Und('pack arguments')
                a = args[0]
                if a.op == 'star':
                    v = item(a.a[0], C(j))
                    if j == cval(cnt) - 1 and len(args) > 0:
                        # a starred sequence supplies the remaining values
                        left = args[0].a[0]
                        args[0] = mk('star', item(left, slc(C(j + 1), NONE))) if False else args[0]
                    out.append(Item('prim', C(sz), loc, code=code, order=fmt.a[0], val=v, cnt=ONE))
                    a2 = a
                    if j == cval(cnt) - 1:
                        args.pop(0)
                    continue
                args.pop(0)
                out.append(Item('prim', C(sz), loc, code=code, order=fmt.a[0], val=a, cnt=ONE))
        else:
            if not args or args[0].op != 'star':
                raise Und('counted pack arguments')
            a = args.pop(0)
            out.append(Item('prim', mul(cnt, C(sz)), loc, code=code, order=fmt.a[0], val=a.a[0], cnt=cnt))
    return out


def bytes_items(t, loc):
    op = t.op
    if op == 'pack':
        return prims_of(t.a[0], t.a[1], loc)
    if op == 'pad':
        return [Item('pad', t.a[0], loc)]
    if op == 'cat':
        return [y for x in t.a for y in bytes_items(x, loc)]
    if isc(t) and cval(t) == b'':
        return []
    if op == 'rep' and isc(t.a[0]) and cval(t.a[0]) == b'\0':
        return [Item('pad', max0(t.a[1]), loc)]
    if isc(t) and isinstance(cval(t), bytes) and set(cval(t)) == {0}:
        return [Item('pad', C(len(cval(t))), loc)]
    if op == 'tobytes':
        return [Item('arr', len_(t), loc, val=t.a[0])]
    if op == 'ite':
        a, b = bytes_items(t.a[1], loc), bytes_items(t.a[2], loc)
        for x in a:
            x.g = (t.a[0],) + tuple(x.g)
        for x in b:
            x.g = (not_(t.a[0]),) + tuple(x.g)
        return a + b
    if op == 'join' and isc(t.a[0]) and cval(t.a[0]) == b'':
        return bytes_items(t.a[1], loc)
    if op in ('map', 'flat') and typ(t)[0] == 'list':
        b = fresh_binder()
        body = subst(t.a[1], {mk('bv', t.a[-1]): b})
        its = bytes_items(body, loc) if op == 'map' else [y for x in (body.a if body.op in ('list', 'tuple') else ()) for y in bytes_items(x, loc)]
        if op == 'flat' and body.op not in ('list', 'tuple'):
            raise Und('written sequence %s' % t)
        return [Item('loop', qsum(t.a[0], b, total(its)), loc, n=t.a[0], b=b, body=its)]
    if op == 'list' or op == 'tuple':
        return [y for x in t.a for y in bytes_items(x, loc)]
    return [Item('bytes', len_(t), loc, val=t)]


def total(items):
    r = ZERO
    for i in items:
        s = i.size
        if i.g:
            s = ite(and_(*i.g), s, ZERO)
        r = add(r, s)
    return r


def writer_items(trace, f, base=()):
    out = []
    base = tuple(base)
    for e in trace:
        if e.kind == 'loop':
            body = writer_items(e.body, f, base + tuple(e.pc))
            if not body:
                continue
            if e.d.get('brk', FALSE) is not FALSE:
                raise Und('loop with break writes output')
            b = e.d['b']
            g = rel_guards(e, base)
            n = e.d['n']
            out.append(Item('loop', qsum(n, b, total(body)), e.loc, n=n, b=b, body=body, g=g, pos=body[0].pos))
        elif e.kind == 'write' and e.d['file'] is f:
            its = bytes_items(e.d['data'], e.loc)
            p = e.d['pos']
            g = rel_guards(e, base)
            for i in its:
                i.pos = p
                p = add(p, i.size)
                i.g = g + tuple(i.g)
            out.extend(its)
        elif e.kind == 'warr' and e.d['file'] is f:
            out.append(Item('arr', e.d['nbytes'], e.loc, val=e.d['arr'], pos=e.d['pos'], g=rel_guards(e, base)))
        elif e.kind in ('seek', 'truncate') and e.d['file'] is f:
            out.append(Item('seek', ZERO, e.loc, ev=e, g=rel_guards(e, base)))
        elif e.kind == 'print' and e.d.get('file') is f:
            out.append(Item('print', ZERO, e.loc, ev=e, g=rel_guards(e, base)))
        elif e.kind in ('call', 'vcall', 'extcall') and any(isinstance(v, T) and has(v, f) for _, v in e.d.get('args', ())):
            out.append(Item('call', ZERO, e.loc, ev=e, g=rel_guards(e, base)))
    return merge_rows(out)


def merge_rows(items):
    """loop writing the rows of an array = the array"""
    out = []
    for i in items:
        if i.k == 'loop' and len(i.body) == 1 and i.body[0].k == 'arr' and not i.body[0].g:
            v = i.body[0].val
            if v.op == 'item' and v.a[1] is i.b and not has(v.a[0], i.b):
                x = Item('arr', i.size, i.loc, val=v.a[0], pos=i.pos, g=i.g)
                x.n = i.n
                out.append(x)
                continue
        out.append(i)
    return out


# ------------------------------------------------------------------ reader side
def reader_items(trace, f, base=()):
    out = []
    base = tuple(base)
    for e in trace:
        g = rel_guards(e, base)
        if e.kind == 'loop':
            body = reader_items(e.body, f, base + tuple(e.pc))
            if not body:
                continue
            if e.d.get('brk', FALSE) is not FALSE:
                raise Und('loop with break reads input')
            out.append(Item('loop', None, e.loc, n=e.d['n'], b=e.d['b'], body=body, g=g))
        elif e.kind == 'read' and e.d['file'] is f:
            out.append(Item('read', e.d['n'], e.loc, val=e.d['buf'], pos=e.d['pos'], g=g))
        elif e.kind == 'rarr' and e.d['file'] is f:
            out.append(Item('rarr', None, e.loc, val=e.d['arr'], pos=e.d['pos'], g=g, ev=e))
        elif e.kind == 'seek' and e.d['file'] is f:
            out.append(Item('seek', None, e.loc, ev=e, pos=e.d['pos'], g=g))
        elif e.kind == 'memmap' and any(has(v, f) for v in e.d.values() if isinstance(v, T)):
            out.append(Item('memmap', None, e.loc, ev=e, val=e.d['arr'], g=g))
        elif e.kind in ('readline', 'readlines') and e.d['file'] is f:
            out.append(Item('line', None, e.loc, ev=e, g=g))
        elif e.kind in ('call', 'vcall', 'extcall') and any(isinstance(v, T) and has(v, f) for _, v in e.d.get('args', ())):
            out.append(Item('call', None, e.loc, ev=e, g=g))
    return out


# ------------------------------------------------------------------ alignment
class Case:
    def __init__(self):
        self.A = []          # assumed literals (writer terms)
        self.cm = {}         # read ordinal -> (binders, pieces)
        self.maps = {}       # memmap term -> array term
        self.n = 0           # matched reads
        self.sub = {}
        self.log = []
        self.wpos = None
        self.sz = {}         # read ordinal -> (binders, bytes or items obtained)
        self.last = None     # (size, items) of the last read, for stepping back

    def copy(self):
        c = Case()
        c.A, c.cm, c.maps, c.n, c.sub, c.log, c.wpos = list(self.A), dict(self.cm), dict(self.maps), self.n, dict(self.sub), list(self.log), self.wpos
        c.sz, c.last = dict(self.sz), self.last
        return c


class Aligner:
    def __init__(self, I, witems, rfile, start, rpos, extra=()):
        """start: writer position (term) where the reader starts; rpos: the reader's position symbol"""
        self.I = I
        self.w = witems
        self.rfile = rfile
        self.start, self.rpos = start, rpos
        self.extra = list(extra)      # assumptions about the written object

    eof = False     # a read after the last written byte returns nothing

    def ended(self, w, c):
        return all((i.g and self.decide(i.g, c, False) is FALSE) or self.under(i.size, c) is ZERO for i in w)

    # -- substitution of read values
    def resolve(self, t, c):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                r = self._res(x, c, go)
                memo[x] = r
            return r
        r = go(t)
        return self.under(r, c)

    def under(self, t, c):
        r = assume_lits(t, c.A) if c.A else t
        return r

    def _res(self, x, c, go):
        op = x.op
        if x is self.rpos:
            return self.start
        if x in c.sub:
            return c.sub[x]
        if op in ('len', 'got') and x.a[0].op in ('rdb', 'ard') and cval(x.a[0].a[1]) in c.sz:
            binders, n = c.sz[cval(x.a[0].a[1])]
            m = {b: v for b, v in zip(binders, (go(y) for y in x.a[0].a[2])) if b is not v}
            return subst(n, m) if m else n
        if op == 'rdb' and cval(x.a[1]) in c.sz and c.sz[cval(x.a[1])][1] is ZERO and not x.a[2]:
            return C(b'')
        if op == 'fld' and x.a[0].op == 'rdb':
            buf = x.a[0]
            k = cval(buf.a[1])
            if k in c.cm:
                return self.fld(c, k, tuple(go(b) for b in buf.a[2]), go(x.a[1]), x.a[2], x.a[3])
        if op == 'rdb' and cval(x.a[1]) in c.cm:
            return self.raw(c, cval(x.a[1]), tuple(go(b) for b in x.a[2]))
        if op == 'ard' and cval(x.a[1]) in c.cm:
            return self.arr(c, cval(x.a[1]), tuple(go(b) for b in x.a[2]), x)
        if op == 'memmap':
            y = c.maps.get(x)
            if y is not None:
                return y
        if op in ('sym', 'c', 'bv'):
            return x
        r = rebuild(x, go)
        return self.norm(r)

    def norm(self, r):
        if r.op == 'call' and r.a[0] == 'toml.loads':
            # toml.loads inverts toml.dumps (library contract, trusted)
            x = r.a[1][0][1]
            while x.op == 'view':
                x = x.a[0]
            if x.op == 'call' and x.a[0] == 'toml.dumps':
                return x.a[1][0][1]
        if r.op == 'reshape':
            a = r.a[0]
            sh = self.I.shape_of(a)
            if sh is r.a[1]:
                return a
        if r.op == 'eq' and r.a[1] is ZERO or r.op == 'eq' and r.a[0] is ZERO:
            o = r.a[0] if r.a[1] is ZERO else r.a[1]
            if typ(o) == BOOL:
                return not_(o)
        return r

    def pieces(self, c, k, bs):
        binders, ps = c.cm[k]
        m = {b: v for b, v in zip(binders, bs) if b is not v}
        return [(subst(o, m), i.sub(m)) for o, i in ps] if m else ps

    def fld(self, c, k, bs, off, code, order):
        for o, i in self.pieces(c, k, bs):
            d = self.under(sub(off, o), c)
            if i.k == 'prim':
                sz = SIZES[i.code] if i.order != '@' else SIZES.get(i.code)
                if i.cnt is ONE:
                    if d is ZERO:
                        return self.prim(i, i.val, code, order)
                else:
                    j = div_exact(d, sz)
                    if j is not None and not isc(j):
                        return self.prim(i, item(i.val, j), code, order)
                    if j is not None and isc(j) and cval(j) >= 0 and len(self.pieces(c, k, bs)) == 1:
                        return self.prim(i, item(i.val, j), code, order)
            elif i.k == 'pad' and d is ZERO and isc(i.size):
                return ZERO
            elif i.k == 'bytes' and isc(i.val) and isinstance(cval(i.val), bytes) and isc(d) and cval(d) >= 0:
                import struct
                s = cval(i.val)[cval(d):cval(d) + SIZES[code]]
                if len(s) == SIZES[code]:
                    return C(struct.unpack((order if order in '<>' else '<') + code, s)[0])
        raise Und('field at offset %s of read %d' % (off, k))

    def prim(self, i, val, code, order):
        so, ro = i.order, order
        sz = SIZES[i.code]
        if SIZES[code] != sz or (code in 'fd') != (i.code in 'fd'):
            raise Mis('a field written as %r is read as %r' % (i.code, code), i.loc)
        if sz > 1 and norm_order(so) != norm_order(ro):
            raise Mis('a field written in byte order %r is read in %r' % (so, ro), i.loc)
        if i.code.lower() == code.lower() and i.code != code and code not in 'fd?':
            lo, hi = rng(val)
            half = 1 << (8 * sz - 1)
            if lo is not None and hi is not None and 0 <= lo and hi < half:
                return val
            return cast(('int' if code.islower() else 'uint') + str(8 * sz), val)
        if typ(val) == BOOL and code not in '?':
            return val
        if code == '?' and typ(val) != BOOL:
            return truth(val)
        return val

    def raw(self, c, k, bs):
        parts = []
        for o, i in self.pieces(c, k, bs):
            if i.k == 'bytes':
                parts.append(i.val)
            elif i.k == 'pad':
                parts.append(mk('pad', i.size))
            elif i.k == 'prim':
                parts.append(mk('pack', mk('sfmt', i.order, ((i.cnt, i.code),)), (i.val if i.cnt is ONE else mk('star', i.val),)))
            elif i.k == 'arr':
                parts.append(mk('tobytes', i.val))
            else:
                raise Und('raw bytes of a loop')
        if len(parts) == 1:
            return parts[0]
        return cat(*parts)

    def arr(self, c, k, bs, x):
        ps = self.pieces(c, k, bs)
        if len(ps) == 1 and ps[0][1].k == 'arr':
            return strip_view(ps[0][1].val)
        return mk('pieces', tuple((i.n if i.k == 'loop' else ONE, i.body[0].val if i.k == 'loop' else i.val) for o, i in ps))

    # -- main walk
    def run(self, ritems, c=None):
        """list of completed cases; raises Mis/Und"""
        c = c or Case()
        c.A = list(self.extra)
        out = []
        w = self.skip_to(self.w, c)
        self.walk(w, list(ritems), c, out)
        return out

    def skip_to(self, w, c):
        return list(w)

    def decide(self, g, c, reader):
        """guard under the case: TRUE/FALSE/term"""
        x = and_(*g) if g else TRUE
        if reader:
            x = self.resolve(x, c)
        else:
            x = self.under(x, c)
        if x is TRUE or x is FALSE:
            return x
        if x.op == 'and':
            ys = [self.under(y, c) for y in x.a]
            x = and_(*ys)
        # already implied by the assumptions?
        e = self.implied(x, c)
        if e is not None:
            return e
        return x

    def implied(self, x, c):
        if not c.A:
            return None
        if equal(x, TRUE, c.A) is True:
            return TRUE
        if equal(x, FALSE, c.A) is True:
            return FALSE
        return None

    def split(self, x, w, r, c, out):
        if x.op == 'and':
            x = x.a[0]
        for v in (x, not_(x)):
            c2 = c.copy()
            c2.A.append(v)
            if any(self.under_one(a, v) is FALSE or assume_lits(a, [y for y in c2.A if y is not a]) is FALSE for a in c.A):
                continue
            self.walk(list(w), list(r), c2, out)

    def under_one(self, a, v):
        return assume_lits(a, [v])

    def walk(self, w, r, c, out):
        w, r = list(w), list(r)
        while True:
            # resolve guards at the heads
            if w and w[0].g:
                d = self.decide(w[0].g, c, False)
                if d is FALSE:
                    w.pop(0)
                    continue
                if d is not TRUE:
                    return self.split(d, w, r, c, out)
                w[0] = w[0].sub({})
                h = Item(w[0].k, w[0].size, w[0].loc, **{s: getattr(w[0], s) for s in ('code', 'order', 'val', 'cnt', 'n', 'b', 'body', 'pos', 'ev')})
                w[0] = h
            if r and r[0].g:
                d = self.decide(r[0].g, c, True)
                if d is FALSE:
                    r.pop(0)
                    continue
                if d is not TRUE:
                    return self.split(d, w, r, c, out)
                h = Item(r[0].k, r[0].size, r[0].loc, **{s: getattr(r[0], s) for s in ('code', 'order', 'val', 'cnt', 'n', 'b', 'body', 'pos', 'ev')})
                r[0] = h
            if not r:
                # remaining unconditional output is unread
                for x in w:
                    d = self.decide(x.g, c, False) if x.g else TRUE
                    if d is FALSE or self.under(x.size, c) is ZERO:
                        continue
                    if d is not TRUE:
                        return self.split(d, w, r, c, out)
                    raise Mis('written data is not read back', x.loc)
                out.append(c)
                return
            x = r.pop(0)
            if x.k == 'read':
                n = self.resolve(x.size, c)
                k = cval(x.val.a[1])
                if self.eof and self.ended(w, c):
                    c.sz[k] = (tuple(x.val.a[2]), ZERO)
                    continue
                w0 = w
                ps, w = self.take(w, n, c, x)
                c.last = (n, [i for o, i in ps])
                c.sz[k] = (tuple(x.val.a[2]), n)
                c.cm[k] = (tuple(x.val.a[2]), ps)
                c.n += 1
            elif x.k == 'rarr':
                e = x.ev
                cnt = self.resolve(e.d['count'], c)
                dt = dtype_of(e.d['dtype'])
                sz = itemsize(dt) if dt else None
                if sz is None:
                    raise Und('dtype of array read')
                n = mul(cnt, C(sz))
                ps, w = self.take(w, n, c, x)
                for o, i in ps:
                    self.check_arr(i, dt, x)
                c.cm[cval(x.val.a[1])] = (tuple(x.val.a[2]), ps)
                c.sz[cval(x.val.a[1])] = (tuple(x.val.a[2]), cnt)
                c.last = None
                c.n += 1
            elif x.k == 'seek':
                e = x.ev
                off = self.resolve(e.d['off'], c)
                if e.d['whence'] is ONE:
                    if off is ZERO:
                        continue
                    lo, hi = rng(off)
                    back = None
                    if c.last is not None and hi is not None and hi < 0:
                        acc = off
                        for k in range(len(c.last[1]) - 1, -1, -1):
                            acc = add(acc, c.last[1][k].size)
                            if acc is ZERO:
                                back = c.last[1][k:]
                                break
                    c.last = None
                    if back is not None:
                        w = back + w
                        continue
                    if hi is not None and hi < 0:
                        raise Und('backward seek')
                    _, w = self.take(w, off, c, x)
                else:
                    tgt = off
                    cur = self.resolve(e.d['pos'], c)
                    _, w = self.take(w, self.under(sub(tgt, cur), c), c, x)
                c.n += 1
            elif x.k == 'memmap':
                self.memmap(x, c)
            elif x.k == 'loop':
                n = self.resolve(x.n, c)
                if not w:
                    raise Mis('the reader expects more data than is written', None, x.loc)
                if w[0].k != 'loop':
                    if isc(n) and isinstance(cval(n), int) and cval(n) <= 8:
                        unr = []
                        for j in range(cval(n)):
                            unr.extend(i.sub({x.b: C(j)}) for i in x.body)
                        r = unr + r
                        continue
                    raise Und('reader loop against %s' % w[0].k)
                l = w.pop(0)
                nw = self.under(l.n, c)
                if equal(n, nw, c.A) is False:
                    raise Mis('%s items are written but %s are read' % (nw, n), l.loc, x.loc)
                body = [i.sub({l.b: x.b}) for i in l.body]
                RNG.setdefault(x.b, (0, 2**63 - 1))
                c2 = c.copy()
                sub_out = []
                self.walk(body, list(x.body), c2, sub_out)
                if len(sub_out) != 1:
                    raise Und('data dependent branches inside a loop')
                A = c.A
                c = sub_out[0]
                c.A = A
            elif x.k == 'call':
                raise Und('call %s' % x.ev.d.get('qual', x.ev.d.get('name')))
            else:
                raise Und('reader item %s' % x.k)

    def check_arr(self, i, dt, x):
        if i.k == 'pad' or i.k == 'loop':
            return
        if i.k != 'arr':
            if i.k == 'prim' and i.cnt is not ONE:
                return
            raise Mis('an array is read where %s was written' % i.k, i.loc, x.loc)
        wd = dtype_of(self.I.dtype_term(i.val))
        if wd is None:
            return
        if wd.lstrip('<>=|') != dt.lstrip('<>=|'):
            raise Mis('an array of %s is read as %s' % (wd, dt), i.loc, x.loc)

    def memmap(self, x, c):
        e = x.ev
        off = self.resolve(e.d['offset'], c)
        dt = dtype_of(e.d['dtype'])
        best = None
        for i in self.w:
            if i.k != 'arr' or (i.g and self.decide(i.g, c, False) is FALSE):
                continue
            p = self.under(i.pos, c)
            if equal(p, off, c.A) is True:
                best = i
                break
        if best is None:
            raise Mis('the mapping starts at %s, where no array was written' % off, None, x.loc)
        self.check_arr(best, dt or '', x)
        sh = self.resolve(e.d['shape'], c)
        a = strip_view(best.val)
        wsh = self.I.shape_of(a)
        r = a if wsh is sh else mk('reshape', a, sh)
        if wsh is not sh:
            ok = all(equal(p, q_, c.A) is not False for p, q_ in zip(wsh.a, sh.a)) if sh.op == 'tuple' and wsh.op == 'tuple' and len(sh.a) == len(wsh.a) else None
            if ok:
                r = a
        c.maps[e.d['arr']] = r
        c.n += 1

    def take(self, w, n, c, x):
        """consume items of total size n"""
        ps = []
        off = ZERO
        left = n
        w = list(w)
        while True:
            if left is ZERO:
                return ps, w
            if not w:
                if equal(left, ZERO, c.A) is True:
                    return ps, w
                raise Mis('the reader expects %s more bytes than are written' % left, None, x.loc)
            i = w[0]
            if i.g:
                d = self.decide(i.g, c, False)
                if d is FALSE:
                    w.pop(0)
                    continue
                if d is not TRUE:
                    raise Und('conditional output inside one read')
            s = self.under(i.size, c)
            if s is ZERO:
                w.pop(0)
                continue
            d = self.under(sub(left, s), c)
            if d is ZERO:
                ps.append((off, i))
                w.pop(0)
                return ps, w
            if isc(left) and isc(s):
                if cval(left) < cval(s):
                    if i.k == 'bytes' and isc(i.val):
                        v = cval(i.val)
                        k = cval(left)
                        ps.append((off, Item('bytes', left, i.loc, val=C(v[:k]))))
                        w[0] = Item('bytes', sub(s, left), i.loc, val=C(v[k:]), pos=i.pos)
                        return ps, w
                    if i.k == 'pad':
                        ps.append((off, Item('pad', left, i.loc)))
                        w[0] = Item('pad', sub(s, left), i.loc)
                        return ps, w
                    raise Mis('the reader takes %s bytes where a %s-byte field (%s) was written' % (left, s, i.code or i.k), i.loc, x.loc)
            elif isc(s) or prefix_ok(d, c) or equal(left, s, c.A) is False and i.k != 'loop' and isc(left) is False:
                # symbolic remainder: keep going if it can be non-negative
                if equal(left, s, c.A) is True:
                    ps.append((off, i))
                    w.pop(0)
                    return ps, w
                lo, hi = rng(d)
                if hi is not None and hi < 0 or len(w) == 1:
                    raise Mis('the reader takes %s bytes where %s bytes were written' % (left, s), i.loc, x.loc)
            else:
                e = equal(left, s, c.A)
                if e is True:
                    ps.append((off, i))
                    w.pop(0)
                    return ps, w
                raise Mis('the reader takes %s bytes where %s bytes were written' % (left, s), i.loc, x.loc)
            ps.append((off, i))
            off = add(off, s)
            left = d
            w.pop(0)
            if len(ps) > 64:
                raise Und('too many pieces')


def prefix_ok(d, c):
    lo, hi = rng(d)
    return lo is not None and lo >= 0


def norm_order(o):
    return {'!': '>', '@': '<', '=': '<'}.get(o, o)     # layouts are analysed for a little-endian host


def div_exact(d, k):
    if isc(d):
        return C(cval(d) // k) if isinstance(cval(d), int) and cval(d) % k == 0 else None
    if d.op == 'poly':
        from .terms import _p, _mkp
        p = _p(d)
        if all(isinstance(v, int) and v % k == 0 for v in p.values()):
            return _mkp({m: v // k for m, v in p.items()})
        return None
    return d if k == 1 else None


def strip_view(a):
    while a.op == 'view':
        a = a.a[0]
    return a


def strip_views(t):
    """remove array views (type changes without effect on the data) everywhere"""
    m = {}

    def go(x):
        r = m.get(x)
        if r is None:
            r = strip_view(x)
            if r.op not in ('sym', 'c', 'bv'):
                r = rebuild(r, go)
            r = strip_view(r)
            m[x] = r
        return r
    return go(t)
