"""Models of the Python builtins, the standard library, NumPy and the Cython
C-level names that the finalfusion sources use (mixed into the interpreter)."""
import ast
import os
import re
from . import terms
from .terms import *
from .terms import _p
from .terms import _closure as closure

SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'e': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'f': 4, 'q': 8, 'Q': 8, 'd': 8,
         's': 1, 'p': 1, 'n': 8, 'N': 8, 'P': 8}
NATIVE = dict(SIZES, l=8, L=8)
ITEMSIZE = {'f4': 4, 'u1': 1, 'i1': 1, 'f8': 8, 'i8': 8, 'u8': 8, 'i4': 4, 'u4': 4, 'f2': 2, 'i2': 2, 'u2': 2, 'b1': 1}

NPTYPES = {'float32': '=f4', 'single': '=f4', 'uint8': '|u1', 'ubyte': '|u1', 'int8': '|i1', 'float64': '=f8', 'double': '=f8', 'int64': '=i8', 'uint64': '=u8',
           'int32': '=i4', 'uint32': '=u4', 'float16': '=f2', 'half': '=f2', 'int16': '=i2', 'uint16': '=u2', 'bool_': '|b1', 'float_': '=f8', 'byte': '|i1'}


# ------------------------------------------------------------------ struct formats
def parse_fmt(t):
    """format term -> (order, ((count term, code), ...)) or None"""
    parts = t.a if t.op == 'cat' else (t,)
    toks = []
    for p in parts:
        if isc(p) and isinstance(cval(p), (str, bytes)):
            s = cval(p)
            if isinstance(s, bytes):
                s = s.decode('ascii', 'replace')
            for ch in s:
                if not ch.isspace():
                    toks.append(ch)
        elif p.op == 'str':
            toks.append(p.a[0])
        elif p.op == 'rep' and isc(p.a[0]) and isinstance(cval(p.a[0]), str) and len(cval(p.a[0])) == 1:
            toks.append(p.a[1])
            toks.append(cval(p.a[0]))
        else:
            return None
    order = '@'
    if toks and isinstance(toks[0], str) and toks[0] in '<>=!@':
        order = toks.pop(0)
    out = []
    cnt = None
    for k in toks:
        if isinstance(k, T):
            if cnt is not None:
                return None
            cnt = k
        elif k.isdigit():
            if cnt is None:
                cnt = C(int(k))
            elif isc(cnt):
                cnt = C(cval(cnt) * 10 + int(k))
            else:
                return None
        else:
            if k not in SIZES:
                return None
            out.append((cnt if cnt is not None else ONE, k))
            cnt = None
    if cnt is not None:
        return None
    return order, tuple(out)


def fmt_offsets(order, toks):
    """[(offset, count, code, size)], total size (native alignment respected)"""
    off = ZERO
    out = []
    sizes = NATIVE if order == '@' else SIZES
    for cnt, code in toks:
        sz = sizes[code]
        if order == '@' and code not in 'xcbB?sp' and sz > 1:
            r = mod(off, C(sz))
            if isc(r):
                if cval(r):
                    off = add(off, C(sz - cval(r)))
            else:
                return None, None
        out.append((off, cnt, code, sz))
        off = add(off, mul(cnt, C(sz)))
    return out, off


def calcsize(ft):
    if ft.op == 'sfmt':
        _, tot = fmt_offsets(ft.a[0], ft.a[1])
        if tot is not None:
            return tot
    return mk('calcsize', ft)


terms.CALCSIZE = calcsize


def sfmt(t):
    if t.op == 'sfmt':
        return t
    if t.op == 'structo':
        return t.a[0]
    r = parse_fmt(t)
    if r is None:
        return mk('sfmtx', t)
    return mk('sfmt', r[0], r[1])


def unpack_vals(ft, buf, base=ZERO):
    """sequence term of the unpacked fields"""
    if ft.op != 'sfmt':
        return mk('unpack', ft, buf)
    offs, tot = fmt_offsets(ft.a[0], ft.a[1])
    if offs is None:
        return mk('unpack', ft, buf)
    order = ft.a[0]
    parts = []
    for off, cnt, code, sz in offs:
        off = add(base, off)
        if code == 'x':
            continue
        if code in 'sp':
            parts.append(tup(item(buf, slc(off, add(off, cnt))) if not (off is ZERO and len(offs) == 1) else buf))
            continue
        if isc(cnt):
            parts.append(tup(*[fld(buf, add(off, C(k * sz)), code, order) for k in range(cval(cnt))]))
        else:
            b = fresh_binder()
            RNG[b] = (0, 2**63 - 1)
            parts.append(qmap(cnt, b, fld(buf, add(off, mul(b, C(sz))), code, order)))
    return cat(*parts) if parts else tup()


def fld(buf, off, code, order):
    return mk('fld', buf, off, code, order)


def itemsize(dt):
    if isinstance(dt, str):
        return ITEMSIZE.get(dt.lstrip('<>=|'))
    return None


def dtype_of(t):
    """canonical dtype string for a dtype-denoting term, else None"""
    if t.op == 'ext' and t.a[0].startswith('numpy.'):
        return NPTYPES.get(t.a[0].split('.')[-1])
    if t.op == 'dtype':
        return t.a[0]
    if isc(t) and isinstance(cval(t), str):
        s = cval(t)
        if s in NPTYPES:
            return NPTYPES[s]
        m = re.match(r'^([<>=|]?)([fiub])(\d)$', s)
        if m:
            o, k, n = m.groups()
            if n == '1':
                return '|' + k + n
            return (o if o in '<>' else '=') + k + n
        if s in ('f', 'd', 'B', 'b', 'i', 'I', 'q', 'Q', 'h', 'H', 'e'):
            return {'f': '=f4', 'd': '=f8', 'B': '|u1', 'b': '|i1', 'i': '=i4', 'I': '=u4', 'q': '=i8', 'Q': '=u8', 'h': '=i2', 'H': '=u2', 'e': '=f2'}[s]
    if t.op == 'ext' and t.a[0] == 'builtins.float':
        return '=f8'
    if t.op == 'ext' and t.a[0] == 'builtins.int':
        return '=i8'
    return None


def ndshape(t):
    return t.a if t.op == 'tuple' else (t,)


BUILTIN_TYPES = {'str': 'str', 'bytes': 'bytes', 'int': 'int', 'float': 'float', 'bool': 'bool', 'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple'}

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
DICT_MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault'}
SET_MUT = {'add', 'remove', 'discard', 'update', 'clear', 'pop', 'intersection_update', 'difference_update'}
ND_MUT = {'fill', 'sort', 'partition', 'put', 'itemset', 'resize', 'setflags'}
RANDOM_EXT = AMBIENT


def verval(r, v):
    """content of array r at version v, None when only partly known"""
    if v is ZERO:
        return r
    if v.op == 'full':
        return v.a[0] if typ(v.a[0])[0] not in ('int', 'float', 'bool') else None
    if v.op == 'ite':
        a, b = verval(r, v.a[1]), verval(r, v.a[2])
        if a is not None and b is not None:
            return ite(v.a[0], a, b)
    return None



def fixed(t):
    """a constant that equality decides: literals, enum members, tuples of them"""
    return isc(t) or t.op == 'enum' or t.op == 'tuple' and all(fixed(x) for x in t.a)


class Models:
    # ------------------------------------------------------------ small helpers
    def next_rd(self):
        self.nrd += 1
        return self.nrd

    def bsnap(self):
        return tuple(self.binders)

    def raises_if(self, c, exc, st, node):
        """operation raises exc when c holds (only followed under a try)"""
        c = self.known(c, st)
        if c is FALSE:
            return
        self.implicit_raise(None, st, node, cond=c, exc=exc)

    def to_str(self, x):
        if isc(x) and isinstance(cval(x), (str, int, float, bool, type(None))):
            return C(str(cval(x)))
        if typ(x) == STR:
            return x
        return mk('str', x)

    def is_nd(self, t, st=None):
        ty = typ(t)
        if ty[0] == 'opt':
            ty = ty[1]
        if ty == ND:
            return True
        if ty[0] == 'cls' and ty[1] <= ND_CLASSES and ty[1]:
            return True
        if t.op == 'ite':
            return any(self.is_nd(x, st) for x in t.a[1:] if x is not NONE)
        return False

    def may_be_array(self, t, st):
        if t.op in ('item', 'ver', 'view', 'call', 'mcall', 'sym', 'attr', 'param'):
            ty = typ(t)
            return ty == ANY or self.is_nd(t, st)
        if t.op == 'ite':
            return any(self.may_be_array(x, st) for x in t.a[1:])
        return self.is_nd(t, st)

    # ------------------------------------------------------------ aliasing
    def roots(self, t, st):
        """objects whose memory t may share"""
        op = t.op
        if op in ('sym',):
            return () if t.a[0].startswith('%b') else (t,)
        if op in ('alloc', 'ard', 'memmap', 'ref', 'global', 'frombuf'):
            return (t,)
        if op == 'attr':
            if t.a[1] in ('T', 'flat', 'base', 'real'):
                return self.roots(t.a[0], st)
            return (t,)
        if op == 'item':
            i = t.a[1]
            if self.fancy(i):
                return ()
            ty = typ(t.a[0])
            return self.roots(t.a[0], st)
        if op in ('view', 'reshape', 'T', 'ver', 'asarray', 'newax', 'iter'):
            return self.roots(t.a[0], st)
        if op == 'ite':
            r = self.roots(t.a[1], st)
            return r + tuple(x for x in self.roots(t.a[2], st) if x not in r)
        if op == 'first':
            return self.roots(t.a[2], st)
        if op in ('call', 'mcall'):
            return (t,)
        if op in ('dget', 'values', 'items', 'keys'):
            return self.roots(t.a[0], st)
        return ()

    def fancy(self, i):
        """index that makes NumPy copy"""
        if i.op == 'tuple':
            return any(self.fancy(x) for x in i.a)
        ty = typ(i)
        return ty[0] in ('list', 'nd') or i.op in ('list', 'map', 'flat', 'arange')

    def use(self, t, st):
        """value of an array as of now"""
        if not st.ver:
            return t
        rs = self.roots(t, st)
        vs = [(r, st.ver[r]) for r in rs if r in st.ver and st.ver[r] is not ZERO]
        if not vs:
            return t
        if len(vs) == 1:
            r, v = vs[0]
            nv = verval(r, v)
            if nv is not None:
                return nv if t is r else subst(t, {r: nv})
        for r, v in sorted(vs):
            t = mk('ver', self.unver(t, r), r, v)
        return t

    def unver(self, t, r):
        """t without older reads of r between it and its memory"""
        if t.op == 'ver':
            x = self.unver(t.a[0], r)
            return x if t.a[1] is r else t if x is t.a[0] else mk('ver', x, *t.a[1:])
        if t.op in ('view', 'reshape', 'T', 'asarray', 'newax', 'item') and not (t.op == 'item' and self.fancy(t.a[1])):
            x = self.unver(t.a[0], r)
            return t if x is t.a[0] else rebuild(t, lambda y: x if y is t.a[0] else y)
        return t

    def mutate_array(self, cur, how, st, node, value=None, newval=None, key=None):
        """in-place write; returns the handle denoting the array afterwards"""
        if cur.op == 'ite' and newval is None and any(not self.roots(x, st) for x in cur.a[1:] if x is not NONE):
            return self.branch_eval(cur.a[0], lambda s: self.mutate_array(cur.a[1], how, s, node, value, newval, key),
                                    lambda s: self.mutate_array(cur.a[2], how, s, node, value, newval, key), st)
        rs = self.roots(cur, st)
        self.ev('mutate', st, node, target=cur, how=how, roots=rs, value=value if value is not None else NONE, key=key if key is not None else NONE)
        if not rs:
            nv = newval
            if nv is None or key is not None:
                nv = mk('ver', cur, cur, mk('wr', ZERO, cur, key if key is not None else NONE, self.snap(newval if newval is not None else value if value is not None else NONE, st)))
            self.temp_update(cur, nv, st)
            return nv
        for r in rs:
            whole = (cur is r) and newval is not None
            if whole and len(rs) == 1:
                st.ver[r] = mk('full', newval)
            else:
                st.ver[r] = mk('wr', st.ver.get(r, ZERO), cur, key if key is not None else NONE, self.snap(newval if newval is not None else value if value is not None else NONE, st))
        return cur

    VIEWS = ('view', 'reshape', 'T', 'asarray', 'newax', 'iter')

    def temp_update(self, t, nv, st):
        """the fresh array with value t was modified: rebind everything that aliases it"""
        if t.op in ('c', 'sym', 'bv') or t is nv:
            return

        def al(x):
            if x is t:
                return nv
            if not isinstance(x, T) or x.op in ('c', 'sym', 'ref'):
                return x
            if x.op in self.VIEWS or x.op == 'item' and not self.fancy(x.a[1]):
                y = al(x.a[0])
                return x if y is x.a[0] else mk(x.op, y, *x.a[1:])
            if x.op in ('tuple', 'list'):
                ys = [al(y) for y in x.a]
                return x if all(a is b for a, b in zip(ys, x.a)) else mk(x.op, *ys)
            if x.op == 'ite':
                p, q = al(x.a[1]), al(x.a[2])
                return x if p is x.a[1] and q is x.a[2] else ite(x.a[0], p, q)
            return x
        for f in st.frames.values():
            for k, v in f.items():
                if isinstance(v, T):
                    f[k] = al(v)
        for o in st.heap.values():
            if o.kind == 'inst':
                for k, v in o.fields.items():
                    if isinstance(v, T):
                        o.fields[k] = al(v)
            elif isinstance(o.val, T) and o.val.op in ('list', 'tuple'):
                o.val = al(o.val)

    def mutate_value(self, o, how, args, st, node):
        if o.op == 'ref' and st.heap.get(o) is not None:
            ob = st.heap[o]
            if ob.ext or ob.kind == 'inst':
                self.ev('mutate', st, node, target=o, how=how, roots=(o,), value=args[0] if args else NONE)
            ob.val = mk('mut', ob.val if ob.val is not None else NONE, how, tuple(self.snap(x, st) for x in args))
            return
        self.ev('mutate', st, node, target=o, how=how, roots=self.roots(o, st), value=args[0] if args else NONE)
        for r in self.roots(o, st):
            st.ver[r] = mk('wr', st.ver.get(r, ZERO), o, C(how), self.snap(args[0], st) if args else NONE)

    # ------------------------------------------------------------ stores and subscripts
    def store(self, o, k, v, st, node, aug=False):
        if o.op == 'ite':
            self.branch_eval(o.a[0], lambda s: self.store(o.a[1], k, v, s, node) or NONE, lambda s: self.store(o.a[2], k, v, s, node) or NONE, st)
            return
        if o.op == 'ref' and st.heap.get(o) is not None:
            ob = st.heap[o]
            if ob.ext:
                self.ev('mutate', st, node, target=o, how='store', roots=(o,), key=k, value=v)
            if ob.kind == 'inst':
                cs = self.classes_of(o, st)
                if cs and cs[0].find('__setitem__') is not None:
                    self.call_attr(o, '__setitem__', [k, v], {}, st, node)
                return
            val = ob.val
            if ob.kind == 'dict':
                ob.val = self.dstore(val, self.snap(k, st), self.snap(v, st))
                return
            if ob.kind in ('list', 'bytearray', 'carray'):
                if val.op == 'list' and isc(k) and isinstance(cval(k), int) and -len(val.a) <= cval(k) < len(val.a):
                    xs = list(val.a)
                    xs[cval(k)] = v
                    ob.val = lst(*xs)
                    return
                ob.val = mk('lstore', val, self.snap(k, st), self.snap(v, st))
                return
            return
        cs = self.classes_of(o, st)
        if cs and not (self.is_nd(o, st)):
            f = cs[0].find('__setitem__')
            if f is not None and not isinstance(f, str):
                self.call_attr(o, '__setitem__', [k, v], {}, st, node)
                return
        vs = self.classes_of(v, st) if isinstance(v, T) and not self.is_nd(v, st) else None
        if vs and len(vs) == 1 and vs[0].find('__array__') is not None and not isinstance(vs[0].find('__array__'), str):
            v = self.call_func(vs[0].find('__array__'), [v], {}, st, node)
        vv = self.use(v, st) if isinstance(v, T) else v
        k = self.snap(k, st)
        full = k.op == 'slice' and k.a[0] is NONE and k.a[1] is NONE or isc(k) and cval(k) is Ellipsis
        self.ev('store', st, node, target=o, key=k, value=self.snap(vv, st), roots=self.roots(o, st), aug=C(aug))
        rs = self.roots(o, st)
        self.ev('mutate', st, node, target=o, how='store', roots=rs, key=k, value=vv)
        if not rs and self.is_nd(o, st):
            self.temp_update(o, mk('ver', o, o, mk('wr', ZERO, o, k, self.snap(vv, st))), st)
        for r in rs:
            if full and o is r and len(rs) == 1:
                st.ver[r] = mk('full', self.snap(vv, st))
            else:
                st.ver[r] = mk('wr', st.ver.get(r, ZERO), o, k, self.snap(vv, st))

    def dstore(self, d, k, v):
        if d.op == 'dict' and isc(k) and all(isc(x) for x, _ in d.a):
            out = [(a, b) for a, b in d.a if a is not k] if not any(a is k for a, _ in d.a) else None
            if out is None:
                return mk('dict', *[(a, v if a is k else b) for a, b in d.a])
            return mk('dict', *(d.a + ((k, v),)))
        return mk('dstore', d, k, v)

    def subscript(self, v, k, st, node, unpack=False):
        if v is NONE and not unpack:
            self.do_raise('TypeError', st, node)
            return self.top('none[]')
        if v.op == 'ite' and (v.a[1].op in ('ref', 'tuple', 'list', 'obj') or v.a[2].op in ('ref', 'tuple', 'list', 'obj')
                              or v.a[1] is NONE or v.a[2] is NONE):
            c = self.known(v.a[0], st)
            if c is TRUE or v.a[2] is NONE and c is not FALSE:
                if c is not TRUE:
                    self.ev('need', st, node, cond=c)
                return self.subscript(v.a[1], k, st, node)
            if c is FALSE or v.a[1] is NONE:
                if c is not FALSE:
                    self.ev('need', st, node, cond=not_(c))
                return self.subscript(v.a[2], k, st, node)
            return self.branch_eval(c, lambda s: self.subscript(v.a[1], k, s, node), lambda s: self.subscript(v.a[2], k, s, node), st)
        if k.op == 'ite' and not unpack and (typ(k.a[1])[0] != typ(k.a[2])[0]):
            return self.branch_eval(k.a[0], lambda s: self.subscript(v, k.a[1], s, node), lambda s: self.subscript(v, k.a[2], s, node), st)
        if v.op in ('class', 'ext'):
            return v            # typing subscripts
        if v.op == 'super':
            return self.np_item(v.a[1], k, st, node)
        cs = self.classes_of(v, st)
        if cs:
            impls = [c.find('__getitem__') for c in cs]
            if len(set(map(id, impls))) == 1 and impls[0] is not None and not isinstance(impls[0], str):
                return self.call_func(impls[0], [v, k], {}, st, node)
            if any(i is not None and not isinstance(i, str) for i in impls):
                t = self.virtual_item(v, k, cs, st, node)
                return t
        d = self.deref(v, st)
        kk = self.snap(self.deref(k, st), st)
        if typ(d)[0] == 'dict' or d.op in ('dict', 'dmap', 'dstore', 'ddef'):
            return self.dict_item(d, kk, st, node)
        if self.is_nd(d, st):
            return self.np_item(d, kk, st, node)
        r = item(d, kk)
        if r.op == 'item' and typ(d)[0] in ('list', 'str', 'bytes') and kk.op != 'slice' and self.tries:
            self.raises_if(or_(le(len_(d), kk), lt(kk, neg(len_(d)))), 'IndexError', st, node)
        if kk.op == 'slice' and typ(d)[0] == 'list' and v.op == 'ref':
            return self.new_list(st, r)
        return r

    def virtual_item(self, v, k, cs, st, node):
        kk = self.snap(self.deref(k, st), st)
        t = item(self.use(v, st), kk)
        fn = [f for f in (c.find('__getitem__') for c in cs) if f is not None and not isinstance(f, str)][0]
        ty = self.prog.ann_type(fn.module, fn.node.returns)
        self.ev('vcall', st, node, name='__getitem__', recv=v, args=(('key', kk),), term=t, impls=())
        self.implicit_raise(t, st, node)
        return t

    def dict_item(self, d, k, st, node):
        r = item(d, k)
        if r.op == 'item' and d.op == 'dict' and 0 < len(d.a) <= 16 and all(fixed(a) for a, _ in d.a) and any(not isc(b) for _, b in d.a):
            # a dispatch table: the entry is selected by case distinction
            self.raises_if(and_(*[not_(eq(k, a)) for a, _ in d.a]), 'KeyError', st, node)
            r = d.a[-1][1]
            for a, b in reversed(d.a[:-1]):
                r = ite(eq(k, a), b, r)
            return r
        if r.op == 'item':
            if self.tries or self.keyerrors:
                self.raises_if(not_(in_(k, d)), 'KeyError', st, node)
            if d.op == 'dstore' or d.op == 'ddef':
                pass
        return r

    def np_item(self, v, k, st, node):
        k = self.snap(self.deref(k, st), st)
        v = self.use(v, st)
        if k.op == 'slice' and all(x is NONE for x in k.a):
            return v
        return item(v, k)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st, node):
        if a.op == 'ite' and a.a[1].op == 'ref' or b.op == 'ite' and b.a[1].op == 'ref':
            pass
        da, db = self.deref(a, st), self.deref(b, st)
        da, db = self.snap(da, st), self.snap(db, st)
        da, db = self.use(da, st), self.use(db, st)
        a_seq = typ(da)[0] in ('list', 'tuple', 'str', 'bytes')
        b_seq = typ(db)[0] in ('list', 'tuple', 'str', 'bytes')
        if op is ast.Add:
            if a_seq or b_seq:
                r = cat(da, db)
                if typ(da)[0] == 'list':
                    return self.new_list(st, r)
                return r
            return add(da, db)
        if op is ast.Sub:
            if typ(da)[0] == 'set':
                return mk('setdiff', da, db)
            return sub(da, db)
        if op is ast.Mult:
            if a_seq or b_seq:
                if b_seq:
                    da, db = db, da
                r = self.rep(da, db)
                return self.new_list(st, r) if typ(da)[0] == 'list' else r
            return mul(da, db)
        if op is ast.Div:
            self.ev('div', st, node, num=da, den=db)
            r = div(da, db)
            return r
        if op is ast.FloorDiv:
            self.ev('div', st, node, num=da, den=db)
            return fdiv(da, db)
        if op is ast.Mod:
            if typ(da) in (STR, BYTES):
                return self.percent(da, db)
            self.ev('div', st, node, num=da, den=db)
            return mod(da, db)
        if op is ast.Pow:
            return power(da, db)
        if op is ast.LShift:
            return shl(da, db)
        if op is ast.RShift:
            return shr(da, db)
        if op is ast.BitAnd:
            if typ(da)[0] == 'set':
                return mk('setand', *sorted((da, db)))
            return band(da, db)
        if op is ast.BitOr:
            if typ(da)[0] == 'set' or typ(db)[0] == 'set':
                return self.set_union(da, db)
            return bor(da, db)
        if op is ast.BitXor:
            return bxor(da, db)
        if op is ast.MatMult:
            return mk('dot', da, db)
        return self.top('operator %s' % op.__name__, node)

    def rep(self, s, n):
        if isc(s) and isc(n):
            return C(cval(s) * max(0, cval(n)))
        if s.op in ('list', 'tuple') and isc(n):
            return mk(s.op, *(s.a * max(0, cval(n))))
        if s.op == 'list' and len(s.a) == 1:
            b = fresh_binder()
            return qmap(max0(n), b, s.a[0])
        return mk('rep', s, n)

    def percent(self, f, x):
        if not isc(f):
            return mk('fmt', f, x)
        s = cval(f)
        args = list(x.a) if x.op == 'tuple' else [x]
        parts = re.split(r'(%s|%d)', s)
        if s.count('%') != len([p for p in parts if p in ('%s', '%d')]):
            return mk('fmt', f, x)
        out = []
        for p in parts:
            if p in ('%s', '%d'):
                if not args:
                    return mk('fmt', f, x)
                out.append(self.to_str(args.pop(0)))
            elif p:
                out.append(C(p))
        return cat(*out) if out else C('')

    def compare(self, op, a, b, st, node):
        if op in (ast.Is, ast.IsNot):
            r = isnone(b) if a is NONE else isnone(a) if b is NONE else (TRUE if a is b else self.identical(a, b, st))
            return not_(r) if op is ast.IsNot else r
        da, db = self.snap(self.deref(a, st), st), self.snap(self.deref(b, st), st)
        if op in (ast.In, ast.NotIn):
            r = self.contains(da, b, db, st, node)
            return not_(r) if op is ast.NotIn else r
        if op in (ast.Eq, ast.NotEq):
            if (self.is_nd(da, st) or self.is_nd(db, st)) and da is not NONE and db is not NONE:
                r = mk('ndop', C('eq'), *sorted((self.use(da, st), self.use(db, st))))
                return r if op is ast.Eq else mk('ndop', C('not'), r)
            if 'dtype' in (da.op, db.op) and dtype_of(da) and dtype_of(db):
                nat = [x.replace('=', '>' if self.byteorder == 'big' else '<') for x in (dtype_of(da), dtype_of(db))]
                r = TRUE if nat[0] == nat[1] else FALSE
                return r if op is ast.Eq else not_(r)
            cs = self.classes_of(a, st)
            f = cs[0].find('__eq__') if len(cs) == 1 and not cs[0].is_enum else None
            if f is not None and not isinstance(f, str) and self.stack.count(f.qual) == 0 and not self.no_inline_eq:
                r = truth(self.call_func(f, [a, b], {}, st, node))
            else:
                r = eq(da, db)
            return r if op is ast.Eq else not_(r)
        if self.is_nd(da, st) or self.is_nd(db, st):
            return mk('ndop', C(op.__name__), self.use(da, st), self.use(db, st))
        if typ(da)[0] == 'set' or typ(db)[0] == 'set':
            return mk('setcmp', C(op.__name__), da, db)
        if op is ast.Lt:
            return lt(da, db)
        if op is ast.LtE:
            return le(da, db)
        if op is ast.Gt:
            return lt(db, da)
        if op is ast.GtE:
            return le(db, da)
        return self.top('comparison', node)

    def identical(self, a, b, st):
        x, y = self.snap(a, st), self.snap(b, st)
        if x is not y and all(typ(t)[0] in ('list', 'dict', 'set', 'nd') for t in (x, y)):
            return mk('is', *sorted((x, y)))       # mutable containers: equal does not mean identical
        return eq(x, y)

    no_inline_eq = False

    def contains(self, k, c, dc, st, node):
        cs = self.classes_of(c, st)
        if cs:
            f = [x.find('__contains__') for x in cs]
            if all(x is f[0] for x in f) and f[0] is not None and not isinstance(f[0], str):
                return truth(self.call_func(f[0], [c, k], {}, st, node))
            if f[0] is not None and not isinstance(f[0], str):
                return mk('in', k, dc)
        if dc.op == 'dmap':
            pass
        return in_(k, dc)

    # ------------------------------------------------------------ iteration
    def iter_of(self, seq, st, node):
        if seq.op == 'ite' and any(self.classes_of(x, st) for x in seq.a[1:]):
            return ite(seq.a[0], self.iter_of(seq.a[1], st, node), self.iter_of(seq.a[2], st, node))
        cs = self.classes_of(seq, st)
        if cs:
            f = [c.find('__iter__') for c in cs]
            if all(x is f[0] for x in f) and f[0] is not None and not isinstance(f[0], str):
                r = self.call_func(f[0], [seq], {}, st, node)
                return self.iter_of(r, st, node)
            if all(x is not None and not isinstance(x, str) for x in f):
                return mk('iter', seq) if not self.is_nd(seq, st) else seq
        if seq.op == 'ref' and seq in st.heap and st.heap[seq].kind == 'inst':
            return mk('iter', seq)
        s = self.snap(self.deref(seq, st), st)
        ty = typ(s)
        if ty[0] == 'opt':
            ty = ty[1]
        if ty == FILE:
            k = self.next_rd()
            L = mk('lines', s, C(k), self.bsnap())
            CALLTY[L] = ('list', STR)
            self.ev('readlines', st, node, file=s, lines=L)
            st.fpos[s] = mk('eof', s)
            return L
        if s.op == 'set':
            if len(s.a) <= 1:
                return lst(*s.a)
            return mk('setseq', s)
        if s.op == 'ite' and typ(s)[0] == 'set':
            return mk('setseq', s)
        if ty[0] == 'set' or s.op in ('setof', 'union', 'sadd', 'setdiff', 'setand'):
            return mk('setseq', s)
        if s.op == 'dict':
            return lst(*[k for k, v in s.a])
        if s.op == 'dmap':
            return q1('map', s.a[0], s.a[1], s.a[-1])
        if ty[0] == 'dict':
            r = mk('keys', s)
            CALLTY[r] = ('list', ty[1])
            return r
        if isc(s) and isinstance(cval(s), (str, bytes)):
            return lst(*[C(x) for x in cval(s)])
        if self.is_nd(s, st):
            return self.use(s, st)
        return s

    def length(self, x, st, node):
        if x.op == 'ite' and (self.classes_of(x.a[1], st) or self.classes_of(x.a[2], st)):
            return ite(x.a[0], self.length(x.a[1], st, node), self.length(x.a[2], st, node))
        cs = self.classes_of(x, st)
        if cs:
            f = [c.find('__len__') for c in cs]
            if all(y is f[0] for y in f) and f[0] is not None and not isinstance(f[0], str):
                return self.call_func(f[0], [x], {}, st, node)
        d = self.snap(self.deref(x, st), st)
        if self.is_nd(d, st):
            return self.shape_dim0(d)
        if typ(d)[0] == 'cls' and not isinstance(d, str):
            return mk('len', d)
        # the index of a vocabulary has one entry per word (C12)
        if d.op == 'attr' and d.a[1] == 'word_index' and CFG['distinct'] and typ(d.a[0])[0] == 'cls':
            w = mk('attr', d.a[0], 'words')
            ATTRTY.setdefault(w, ('list', STR))
            return len_(w)
        return len_(d)

    # ------------------------------------------------------------ shapes
    def shape_of(self, t):
        """shape term (tuple when the rank is known)"""
        s = self.shapes.get(t)
        if s is not None:
            return tup(*s)
        op = t.op
        if op in ('view', 'ver', 'asarray', 'byteswap', 'astype'):
            return self.shape_of(t.a[0])
        if op == 'reshape':
            return t.a[1] if t.a[1].op == 'tuple' else (tup(t.a[1]) if typ(t.a[1]) == INT else t.a[1])
        if op == 'ard':
            return tup(t.a[4])
        if op == 'memmap':
            return t.a[4]
        if op == 'alloc':
            return t.a[1] if t.a[1].op == 'tuple' else tup(t.a[1]) if typ(t.a[1]) == INT else t.a[1]
        if op == 'ite':
            return ite(t.a[0], self.shape_of(t.a[1]), self.shape_of(t.a[2]))
        if op == 'item':
            bs = self.shape_of(t.a[0])
            k = t.a[1]
            if bs.op == 'tuple' and bs.a:
                if k.op == 'slice' and k.a[2] is NONE:
                    n = self.slice_len(bs.a[0], k)
                    if n is not None:
                        return tup(n, *bs.a[1:])
                elif typ(k) == INT and len(bs.a) >= 1:
                    return tup(*bs.a[1:])
        if op == 'T':
            bs = self.shape_of(t.a[0])
            if bs.op == 'tuple':
                return tup(*reversed(bs.a))
        if op == 'norm' and t.a[1] is ONE:
            bs = self.shape_of(t.a[0])
            if bs.op == 'tuple' and len(bs.a) == 2:
                return tup(bs.a[0])
        a = mk('attr', t, 'shape')
        ATTRTY[a] = ('list', INT)
        return a

    def slice_len(self, n, k):
        lo, hi = k.a[0], k.a[1]
        if lo is NONE and hi is not NONE and nonneg(hi):
            return minmax('min', [n, hi])
        if hi is NONE and lo is not NONE and nonneg(lo):
            return max0(sub(n, lo))
        if lo is NONE and hi is NONE:
            return n
        return None

    def shape_dim0(self, t):
        s = self.shape_of(t)
        r = item(s, ZERO)
        if r.op == 'item':
            RNG.setdefault(r, (0, 2**63 - 1))
        return r

    def size_of(self, t):
        s = self.shape_of(t)
        if s.op == 'tuple':
            r = ONE
            for x in s.a:
                r = mul(r, x)
            return r
        return mk('size', t)

    def dtype_term(self, t):
        d = self.dtypes.get(t)
        if d is not None:
            return d
        if t.op in ('ard', 'memmap'):
            return t.a[3] if t.op == 'ard' else t.a[1]
        if t.op == 'alloc':
            return t.a[2]
        if t.op in ('view', 'reshape', 'ver', 'T', 'asarray') or (t.op == 'item' and self.is_nd(t.a[0])):
            return self.dtype_term(t.a[0])
        if t.op == 'astype':
            return t.a[1]
        if t.op == 'byteswap':
            d = self.dtype_term(t.a[0])
            return d
        # results of arithmetic are in native byte order
        if t.op == 'poly':
            ds = {dtype_of(self.dtype_term(f)) for _, m in t.a[0] for f, _e in m if self.is_nd(f) or f.op in ('item', 'poly', 'ite') and typ(f) in (FLOAT, ND, ANY)}
            if ds and None not in ds and len({d.lstrip('<>=|') for d in ds}) == 1:
                return mk('dtype', '=' + ds.pop().lstrip('<>=|'))
        if t.op in ('dot', 'asum', 'amean', 'norm'):
            d = dtype_of(self.dtype_term(t.a[0]))
            if d:
                return mk('dtype', '=' + d.lstrip('<>=|'))
        if t.op == 'ndop' and isc(t.a[0]) and cval(t.a[0]) in ('where', 'sqrt', 'square', 'abs', 'maximum', 'minimum', 'norm', 'flatten', 'squeeze', 'copy', 'ascontiguousarray', 'sum', 'max', 'min'):
            ds = {dtype_of(self.dtype_term(x)) for x in t.a[2 if cval(t.a[0]) == 'where' else 1:] if self.is_nd(x)}
            if len(ds) == 1 and None not in ds and 'f' in next(iter(ds)):
                return mk('dtype', '=' + ds.pop().lstrip('<>=|'))
        if t.op == 'ite':
            a, b = self.dtype_term(t.a[1]), self.dtype_term(t.a[2])
            if a is b:
                return a
        return mk('attr', t, 'dtype')

    # ------------------------------------------------------------ attributes
    def builtin_method_ok(self, recv, name, st):
        """method can be applied to the gated value as a whole"""
        ty = typ(recv)
        if ty[0] == 'opt':
            return False
        if any(x.op in ('ref', 'func', 'class', 'ext') for x in recv.a[1:]):
            return False
        if ty in (STR, BYTES, ND, INT):
            return True
        return False

    def ext_attr(self, dotted, name):
        full = dotted + '.' + name
        if full in ('numpy.newaxis',):
            return NONE
        if full in ('sys.maxsize',):
            return C(2**63 - 1)
        return mk('ext', full)

    def ext_value(self, dotted, st):
        base = dotted.split('.')[-1]
        if dotted == 'sys.byteorder':
            return C(self.byteorder) if self.byteorder else sym('sys.byteorder', STR)
        if base in ('UINT32_MAX', 'UINT64_MAX', 'INT32_MAX', 'INT64_MAX', 'UINT16_MAX', 'UINT8_MAX'):
            return C(CT[base[:-4].lower()][1])
        if dotted.startswith('finalfusion.') and base.isupper():
            v = c_define(self.prog, base)
            if v is not None:
                return C(v)
        return mk('ext', dotted)

    def raw_attr(self, t, name, st, node):
        op = t.op
        if op == 'parser':
            return mk('bmeth', t, name)
        if op == 'args':
            if name in self.cli:
                return self.cli[name]
            if name not in self.options:
                self.do_raise('AttributeError', st, node)
                return mk('bottom')
            return sym('args.' + name, cli_type(self.options[name][1]))
        if op == 'obj':
            for k, v in t.a[1]:
                if k == name:
                    return v
            c = self.prog.classes.get(t.a[0])
            if c is not None:
                f = c.find(name)
                if f is not None and not isinstance(f, str):
                    if f.kind == 'property':
                        return self.call_func(f, [t], {}, st, node)
                    return mk('bound', mk('func', f.qual), t)
        if op == 'structo':
            if name == 'size':
                return calcsize(t.a[0])
            if name == 'format':
                return mk('attr', t, name)
            return mk('structm', t.a[0], name)
        if op == 'typeof' and name in ('__name__', '__qualname__'):
            return mk('str', t)
        if op == 'ref':
            o = st.heap.get(t)
            if o is not None and o.kind == 'carray' and name in ('data', 'as_uints', 'as_ints', 'as_ulongs', 'as_longs', 'as_uchars'):
                return t
            if o is not None and o.kind != 'inst':
                return mk('bmeth', t, name)
            if o is not None and o.kind == 'inst':
                if not o.ext and not any('numpy' in x or 'dict' in x for x in o.cls.ext_base()):
                    self.unknown.append(('attribute %s of %s' % (name, o.cls.name), self.loc(node)))
                return mk('attr', t, name)
        if name == 'shape':
            return self.shape_of(self.use_shape(t))
        if self.is_nd(t, st) or op in ('reshape', 'alloc'):
            if name == 'size':
                return self.size_of(t)
            if name == 'ndim':
                s = self.shape_of(t)
                return C(len(s.a)) if s.op == 'tuple' else mk('ndim', t)
            if name == 'T':
                return mk('T', t)
            if name == 'dtype':
                return self.dtype_term(t)
            if name == 'itemsize':
                d = dtype_of(self.dtype_term(t))
                return C(itemsize(d)) if d and itemsize(d) else mk('attr', t, name)
            if name == 'nbytes':
                d = dtype_of(self.dtype_term(t))
                return mul(self.size_of(t), C(itemsize(d))) if d and itemsize(d) else mk('attr', t, name)
            if name in ('base', 'flat', 'real', 'data', 'flags', 'strides'):
                return mk('attr', t, name)
            return mk('bmeth', t, name)
        if op == 'dtype':
            if name == 'byteorder':
                return C(t.a[0][0])
            if name == 'itemsize':
                return C(itemsize(t.a[0]))
            long = {'f2': 'float16', 'f4': 'float32', 'f8': 'float64', 'b1': 'bool', **{k + str(n): w + str(8 * n) for k, w in (('i', 'int'), ('u', 'uint')) for n in (1, 2, 4, 8)}}.get(t.a[0][1:])
            if name == 'name' and long:
                return C(long)
            if name == 'type' and long:
                return mk('ext', 'numpy.' + long)
            if name == 'kind' and len(t.a[0]) > 1:
                return C(t.a[0][1])
            if name == 'str':
                return C(t.a[0].replace('=', '>' if self.byteorder == 'big' else '<'))
            if name == 'isnative':
                return C(t.a[0][0] in ('=', '|') or (t.a[0][0] == '>') == (self.byteorder == 'big'))
            return mk('attr', t, name)
        if name == 'ndim':
            return mk('ndim', t)
        ty = typ(t)
        if ty[0] == 'opt':
            ty = ty[1]
        if ty == FILE:
            if name in ('name', 'mode', 'encoding', 'buffer', 'closed', 'errors'):
                a = mk('attr', t, name)
                if name == 'name':
                    ATTRTY[a] = STR
                return a
            return mk('bmeth', t, name)
        if ty[0] in ('str', 'bytes', 'list', 'dict', 'set', 'tuple', 'int', 'float'):
            return mk('bmeth', t, name)
        a = mk('attr', t, name)
        if name == 'byteorder':
            ATTRTY[a] = STR
        return a

    def use_shape(self, t):
        return t

    # ------------------------------------------------------------ builtin / external calls
    def call_ext(self, name, args, kwargs, st, node):
        """call of an external function or class"""
        fn = EXT.get(name)
        if fn is None and name.startswith('builtins.'):
            fn = EXT.get(name[9:])
        if fn is not None:
            r = fn(self, args, kwargs, st, node)
            if r is not None:
                return r
        base = name.split('.')[-1]
        if name.startswith(('numpy.ndarray.', 'builtins.dict.', 'builtins.str.', 'builtins.bytes.', 'builtins.list.', 'builtins.object.', 'abc.')) and args:
            return self.raw_method(args[0], base, args[1:], kwargs, st, node)
        if name.startswith('numpy.') and name.count('.') == 2 and base in ('reduce', 'outer', 'at', 'accumulate'):
            pass
        elif name.startswith('numpy.'):
            r = self.np_call(name[6:], args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith('finalfusion.') or name.startswith('libc.') or name.startswith('cpython.'):
            r = self.c_call(base, args, kwargs, st, node)
            if r is not None:
                return r
        return self.ext_opaque(name, args, kwargs, st, node)

    def ext_opaque(self, name, args, kwargs, st, node):
        kv = tuple((None, self.snap(self.use(x, st), st)) for x in args) + tuple((k, self.snap(self.use(v, st), st)) for k, v in kwargs.items())
        kv = tuple((k if k is not None else '', v) for k, v in kv)
        t = mk('call', name, kv)
        if name.startswith(RANDOM_EXT) or any(typ(v) == FILE for _, v in kv):
            t = mk('call', name, kv + (('%k', C(self.next_rd())),))
        self.ev('extcall', st, node, name=name, args=kv, term=t)
        self.implicit_raise(t, st, node)
        return t

    # methods of builtin values ------------------------------------------------
    def raw_method(self, recv, name, args, kwargs, st, node):
        if name == '__getitem__':
            if self.is_nd(recv, st):
                return self.np_item(recv, args[0], st, node)
            d = self.deref(recv, st)
            return self.dict_item(d, self.snap(args[0], st), st, node) if typ(d)[0] == 'dict' else item(d, self.snap(args[0], st))
        if name == '__init__':
            return NONE
        if name == '__eq__':
            return eq(self.snap(recv, st), self.snap(args[0], st))
        if name == '__len__':
            return self.length(recv, st, node) if not self.classes_of(recv, st) else len_(self.snap(recv, st))
        if name == '__iter__':
            return self.use(recv, st)
        if name == '__new__':
            c = args[0] if args else recv
            if c.op == 'class':
                from .interp import Obj
                return self.newref(st, Obj('inst', self.prog.classes[c.a[0]], {}), ('cls', frozenset([c.a[0]])))
        return self.call_method(recv, name, args, kwargs, st, node)

    def call_method(self, recv, name, args, kwargs, st, node):
        if recv.op == 'parser':
            if name == 'add_argument':
                flags = [cval(x) for x in args if isc(x)]
                dest = kwargs.get('dest')
                long = [f for f in flags if f.startswith('--')]
                d = cval(dest) if dest is not None and isc(dest) else (long or flags)[0].lstrip('-').replace('-', '_') if flags else '?'
                self.options[d] = (flags, {k: self.snap(v, st) for k, v in kwargs.items()}, self.loc(node))
                return NONE
            if name in ('add_argument_group', 'add_mutually_exclusive_group'):
                return recv
            if name == 'parse_args':
                return mk('args', recv)
            if name in ('error', 'exit'):
                return call_exit(self, st, node)
        if recv.op == 'ite' and not self.builtin_method_ok(recv, name, st):
            return self.branch_eval(recv.a[0], lambda s: self.attr_call(recv.a[1], name, args, kwargs, s, node),
                                    lambda s: self.attr_call(recv.a[2], name, args, kwargs, s, node), st)
        d = self.deref(recv, st)
        ty = typ(d)
        if ty[0] == 'opt':
            ty = ty[1]
        o = st.heap.get(recv) if recv.op == 'ref' else None
        kind = o.kind if o is not None and o.kind != 'inst' else None
        if ty == FILE:
            r = self.file_method(recv, name, args, kwargs, st, node)
        elif kind == 'dict' or ty[0] == 'dict' or d.op in ('dict', 'dmap', 'dstore'):
            r = self.dict_method(recv, d, name, args, kwargs, st, node)
        elif kind == 'set' or ty[0] == 'set':
            r = self.set_method(recv, d, name, args, kwargs, st, node)
        elif kind in ('list', 'bytearray', 'carray') or ty[0] == 'list':
            r = self.list_method(recv, d, name, args, kwargs, st, node)
        elif ty in (STR, BYTES):
            r = self.str_method(d, name, args, kwargs, st, node)
        elif self.is_nd(d, st):
            r = self.nd_method(recv, name, args, kwargs, st, node)
        elif ty == INT and name == 'to_bytes':
            r = self.to_bytes(d, args, kwargs)
        elif ty[0] == 'tuple' and name in ('index', 'count'):
            r = None
        elif d.op == 'call' and d.a[0] == 're.compile':
            r = self.re_method(d, name, args, kwargs, st, node)
        elif name in ('read', 'readline', 'seek', 'tell', 'write', 'readinto', 'fileno', 'flush', 'close') and (ty == ANY):
            r = self.file_method(recv, name, args, kwargs, st, node)
        elif name in ('decode', 'encode', 'strip', 'rstrip', 'lstrip', 'split', 'join', 'format', 'startswith', 'endswith', 'splitlines', 'partition', 'rsplit') and ty == ANY:
            r = self.str_method(d, name, args, kwargs, st, node)
        elif name in ('get', 'items', 'keys', 'values', 'setdefault') and ty == ANY:
            r = self.dict_method(recv, d, name, args, kwargs, st, node)
        elif name in ('append', 'extend') and ty == ANY:
            r = self.list_method(recv, d, name, args, kwargs, st, node)
        elif ty == ANY:
            r = self.nd_method(recv, name, args, kwargs, st, node) if name in ND_METHODS else None
        else:
            r = None
        if r is None:
            kv = tuple(('', self.snap(self.use(x, st), st)) for x in args) + tuple((k, self.snap(self.use(v, st), st)) for k, v in kwargs.items())
            t = mk('mcall', name, self.snap(recv, st), kv)
            if any(typ(v) == FILE for _, v in kv) or typ(recv) == FILE:
                t = mk('mcall', name, self.snap(recv, st), kv + (('%k', C(self.next_rd())),))
            if typ(recv) != ANY:
                self.unknown.append(('method %s of %s' % (name, typ(recv)[0]), self.loc(node)))
            self.ev('extcall', st, node, name='.' + name, recv=recv, args=kv, term=t)
            self.implicit_raise(t, st, node)
            return t
        return r

    # ------------------------------------------------------------ files
    def fid_of(self, f, st):
        if f not in st.fpos:
            p = mk('sym', '%pos:' + show(f), INT)
            RNG.setdefault(p, (0, None))
            st.fpos[f] = p
        return f

    def file_method(self, f, name, args, kwargs, st, node):
        f = self.snap(f, st)
        self.fid_of(f, st)
        pos = st.fpos[f]
        if name == 'read':
            n = self.snap(args[0], st) if args else kwargs.get('size', kwargs.get('n'))
            k = self.next_rd()
            if n is None or n is C(-1) or n is NONE:
                n = mk('rest', f, pos)
            buf = mk('rdb', f, C(k), self.bsnap(), n)
            self.ev('read', st, node, file=f, n=n, buf=buf, pos=pos)
            self.raises_if(mk('raises', buf, 'OSError'), 'OSError', st, node) if False else None
            st.fpos[f] = add(pos, n if CFG['full_reads'] else len_(buf))
            return buf
        if name == 'seek':
            off = self.snap(args[0], st)
            wh = args[1] if len(args) > 1 else kwargs.get('whence', ZERO)
            if wh.op == 'ext':
                wh = C({'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(wh.a[0].split('.')[-1], 0))
            self.ev('seek', st, node, file=f, off=off, whence=wh, pos=pos)
            if wh is ZERO:
                st.fpos[f] = off
            elif wh is ONE:
                st.fpos[f] = add(pos, off)
            else:
                st.fpos[f] = mk('eofpos', f, off)
            return st.fpos[f]
        if name == 'tell':
            return pos
        if name == 'write':
            data = self.snap(self.deref(args[0], st), st)
            data = self.use(data, st)
            if self.is_nd(data, st):
                return self.write_arr(f, data, st, node)
            self.ev('write', st, node, file=f, data=data, pos=pos)
            st.fpos[f] = add(pos, len_(data))
            return len_(data)
        if name == 'writelines':
            def body(e, s):
                self.file_method(f, 'write', [e], {}, s, node)
            self.iterate(args[0], body, st, node)
            return NONE
        if name in ('readline', '__next__'):
            k = self.next_rd()
            text = f.op == 'fobj' and 'b' not in f.a[2]
            L = mk('line', f, C(k), self.bsnap())
            CALLTY[L] = STR if text else BYTES
            self.ev('readline', st, node, file=f, line=L, pos=pos)
            st.fpos[f] = add(pos, len_(L))
            return L
        if name == 'readlines':
            return self.new_list(st, self.iter_of(f, st, node))
        if name == 'close':
            self.ev('close', st, node, file=f)
            return NONE
        if name in ('flush', 'fileno', 'readable', 'writable', 'seekable', 'isatty'):
            return mk('mcall', name, f, ())
        if name == 'truncate':
            self.ev('truncate', st, node, file=f)
            return NONE
        if name == 'readinto':
            self.unknown.append(('readinto', self.loc(node)))
            return None
        if name == '__enter__':
            return f
        return None

    def write_arr(self, f, arr, st, node, how='tofile'):
        self.fid_of(f, st)
        arr = self.snap(self.use(arr, st), st)
        pos = st.fpos[f]
        dt = dtype_of(self.dtype_term(arr))
        isz = C(itemsize(dt)) if dt and itemsize(dt) else mk('attr', self.strip_arr(arr), 'itemsize')
        nb = mul(self.size_of(arr), isz)
        self.ev('warr', st, node, file=f, arr=arr, pos=pos, nbytes=nb)
        st.fpos[f] = add(pos, nb)
        return NONE

    def strip_arr(self, a):
        while a.op in ('byteswap', 'view', 'ver', 'reshape', 'asarray'):
            a = a.a[0]
        return a

    def open_(self, args, kwargs, st, node):
        names = ['file', 'mode', 'buffering', 'encoding', 'errors', 'newline', 'closefd', 'opener']
        a = dict(zip(names, args))
        a.update(kwargs)
        mode = a.get('mode', C('r'))
        m = cval(mode) if isc(mode) else '?'
        k = self.next_rd()
        path = self.snap(a['file'], st)
        f = mk('fobj', C(k), path, m)
        st.fpos[f] = ZERO
        self.ev('open', st, node, file=f, path=path, mode=mode, encoding=a.get('encoding', NONE), errors=a.get('errors', NONE), newline=a.get('newline', NONE))
        self.implicit_raise(f, st, node)
        return f

    # ------------------------------------------------------------ strings
    def str_method(self, s, name, args, kwargs, st, node):
        args = [self.snap(self.deref(x, st), st) for x in args]
        if name == 'encode':
            e = args[0] if args else kwargs.get('encoding', C('utf-8'))
            er = args[1] if len(args) > 1 else kwargs.get('errors', C('strict'))
            x = enc(s, canon_enc(e))
            if er is not C('strict'):
                x = enc(s, canon_enc(e), er)
            self.ev('encode', st, node, value=s, encoding=C(canon_enc(e)), errors=er)
            return x
        if name == 'decode':
            e = args[0] if args else kwargs.get('encoding', C('utf-8'))
            er = args[1] if len(args) > 1 else kwargs.get('errors', C('strict'))
            self.ev('decode', st, node, value=s, encoding=C(canon_enc(e)), errors=er)
            if er is C('strict'):
                return dec(s, canon_enc(e))
            return dec(s, canon_enc(e), er)
        if name in ('strip', 'rstrip', 'lstrip'):
            if isc(s) and all(isc(x) for x in args):
                return C(getattr(cval(s), name)(*[cval(x) for x in args]))
            r = mk('strip', s, name, args[0] if args else NONE)
            return r
        if name in ('split', 'rsplit'):
            r = mk('split', s, args[0] if args else kwargs.get('sep', NONE), args[1] if len(args) > 1 else kwargs.get('maxsplit', NONE), name)
            if isc(s) and all(isc(x) for x in args):
                return lst(*[C(x) for x in getattr(cval(s), name)(*[cval(x) for x in args])])
            return self.new_list(st, r)
        if name == 'join':
            x = self.iter_of(args[0], st, node)
            if x.op in ('list', 'tuple') and isc(s):
                out = []
                for i, e in enumerate(x.a):
                    if i and cval(s):
                        out.append(s)
                    out.append(e)
                return cat(*out) if out else s if not cval(s) else C(type(cval(s))())
            r = mk('join' if typ(s) == STR else 'join_b', s, x)
            return r
        if name == 'format':
            if isc(s):
                return self.str_format(cval(s), args, kwargs, st)
            return mk('fmt', s, tuple(args))
        if name in ('startswith', 'endswith', 'isspace', 'isdigit', 'isascii', 'isalpha', 'isupper', 'islower'):
            if isc(s) and all(isc(x) for x in args):
                return C(getattr(cval(s), name)(*[cval(x) for x in args]))
            t = mk('mcall', name, s, tuple(('', x) for x in args))
            CALLTY[t] = BOOL
            return t
        if name in ('lower', 'upper', 'casefold', 'title', 'replace', 'ljust', 'rjust', 'zfill', 'hex', 'expandtabs', 'removeprefix', 'removesuffix'):
            if isc(s) and all(isc(x) for x in args):
                return C(getattr(cval(s), name)(*[cval(x) for x in args]))
            t = mk('mcall', name, s, tuple(('', x) for x in args))
            CALLTY[t] = typ(s)
            return t
        if name in ('partition', 'rpartition', 'splitlines'):
            t = mk('mcall', name, s, tuple(('', x) for x in args))
            CALLTY[t] = ('list', typ(s))
            return t
        if name in ('find', 'index', 'count', 'rfind'):
            t = mk('mcall', name, s, tuple(('', x) for x in args))
            CALLTY[t] = INT
            return t
        if name == 'tobytes':
            return s
        return None

    def str_format(self, f, args, kwargs, st):
        out = []
        i = 0
        import string
        try:
            for lit, fld_, spec, conv in string.Formatter().parse(f):
                if lit:
                    out.append(C(lit))
                if fld_ is None:
                    continue
                if spec or conv:
                    return mk('fmt', C(f), tuple(args))
                if fld_ == '':
                    out.append(self.to_str(args[i]))
                    i += 1
                elif fld_.isdigit():
                    out.append(self.to_str(args[int(fld_)]))
                elif fld_ in kwargs:
                    out.append(self.to_str(self.snap(kwargs[fld_], st)))
                else:
                    return mk('fmt', C(f), tuple(args))
        except (ValueError, IndexError):
            return mk('fmt', C(f), tuple(args))
        return cat(*out) if out else C('')

    def re_method(self, pat, name, args, kwargs, st, node):
        args = [self.snap(x, st) for x in args]
        if name == 'split':
            p = pat.a[1][0][1]
            fl = tuple(v for k, v in pat.a[1][1:])
            t = mk('resplit', args[0], p, fl, args[1] if len(args) > 1 else kwargs.get('maxsplit', NONE))
            CALLTY[t] = ('list', STR)
            return self.new_list(st, t)
        return None

    # ------------------------------------------------------------ lists
    def list_append(self, ref, v, st, node):
        o = st.heap[ref]
        if o.ext:
            self.ev('mutate', st, node, target=ref, how='append', roots=(ref,), value=v)
        v = self.use(v, st)
        new = self.outer and ref in self.outer[-1] and v not in self.outer[-1]    # made anew in every iteration: kept by value
        if o.kind == 'list' and v.op == 'ref' and v in st.heap and st.heap[v].kind == 'inst' and not new:
            o.val = cat(o.val, lst(v))
        else:
            o.val = cat(o.val, lst(self.snap(v, st)))

    def list_extend(self, ref, v, st, node):
        o = st.heap[ref]
        if o.ext:
            self.ev('mutate', st, node, target=ref, how='extend', roots=(ref,), value=v)
        if o.kind == 'bytearray':
            o.val = cat(o.val, self.snap(self.deref(v, st), st))
            return
        x = self.iter_of(v, st, node)
        if x.op == 'tuple':
            x = lst(*x.a)
        o.val = cat(o.val, x)

    def list_method(self, recv, d, name, args, kwargs, st, node):
        isref = recv.op == 'ref' and recv in st.heap
        if name == 'append':
            if isref:
                if st.heap[recv].kind == 'bytearray':
                    st.heap[recv].val = cat(st.heap[recv].val, mk('bytes1', self.snap(args[0], st)))
                    return NONE
                self.list_append(recv, args[0], st, node)
            else:
                self.mutate_value(recv, name, args, st, node)
            return NONE
        if name == 'extend':
            if isref:
                self.list_extend(recv, args[0], st, node)
            else:
                self.mutate_value(recv, name, args, st, node)
            return NONE
        d = self.snap(d, st)
        if isref and st.heap[recv].kind == 'bytearray' and name in ('decode', 'strip', 'rstrip', 'lstrip'):
            return self.str_method(d, name, args, kwargs, st, node)
        if name == 'copy':
            return self.new_list(st, d)
        if name in ('sort', 'reverse') and isref and not st.heap[recv].ext:
            if name == 'sort':
                st.heap[recv].val = sort_term(self, d, kwargs.get('key', NONE), kwargs.get('reverse', FALSE), st, node) if kwargs or any(x.op == 'obj' for x in closure(d)) else mk('sorted', d, ())
                CALLTY[st.heap[recv].val] = typ(d)
            else:
                st.heap[recv].val = mk('reversed', d)
            return NONE
        if name == 'insert' and isref:
            if args[0] is ZERO:
                st.heap[recv].val = cat(lst(self.snap(args[1], st)), d)
            else:
                self.mutate_value(recv, name, args, st, node)
            return NONE
        if name == 'pop' and isref and d.op == 'list' and d.a and (not args or isc(args[0])):
            i = cval(args[0]) if args else -1
            xs = list(d.a)
            v = xs.pop(i)
            st.heap[recv].val = lst(*xs)
            return v
        if name in LIST_MUT:
            self.mutate_value(recv, name, args, st, node)
            return item(d, args[0] if args else C(-1)) if name == 'pop' else NONE
        if name in ('index', 'count'):
            t = mk('mcall', name, d, tuple(('', self.snap(x, st)) for x in args))
            CALLTY[t] = INT
            self.implicit_raise(t, st, node, exc='ValueError', cond=mk('raises', t, 'ValueError'))
            return t
        if name in ('join', 'decode', 'strip'):
            return self.str_method(d, name, args, kwargs, st, node)
        return None

    # ------------------------------------------------------------ dicts
    def dict_of_pairs(self, s):
        """dict from a sequence of pairs"""
        if s.op in ('list', 'tuple'):
            d = mk('dict')
            for p in s.a:
                d = self.dstore(d, item(p, ZERO), item(p, ONE))
            return d
        if s.op == 'map':
            h = s.a[2]
            k, v = item(s.a[1], ZERO), item(s.a[1], ONE)
            return mk('dmap', s.a[0], k, v, h)
        if s.op == 'dmap':
            return s
        if s.op == 'items':
            return s.a[0]
        return mk('ddef', s)

    def dict_method(self, recv, d, name, args, kwargs, st, node):
        d = self.snap(d, st)
        args = [self.snap(x, st) if x.op != 'ref' or name not in ('get', 'setdefault', 'pop') else x for x in args]
        isref = recv.op == 'ref' and recv in st.heap and st.heap[recv].kind == 'dict'
        if name == 'get':
            k = self.snap(args[0], st)
            dfl = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            if d.op == 'dict' and all(fixed(a) for a, _ in d.a) and fixed(k):
                for a, b in d.a:
                    if eq(a, k) is TRUE:
                        return b
                return dfl
            if d.op == 'dstore':
                e = eq(d.a[1], k)
                if e is TRUE:
                    return d.a[2]
            vt = typ(d)[2] if typ(d)[0] == 'dict' else ANY
            if d.op == 'dict' and 0 < len(d.a) <= 16 and all(fixed(a) for a, _ in d.a) and any(not isc(b) for _, b in d.a):
                r = dfl
                for a, b in reversed(d.a):
                    r = ite(eq(k, a), b, r)
                return r
            if dfl is NONE or (vt[0] not in ('int', 'str') and False):
                return mk('dget', d, k, NONE)
            if d.op == 'dict':
                r = dfl
                for a, b in reversed(d.a):
                    r = ite(eq(k, a), b, r)
                return r
            return ite(in_(k, d), item(d, k), dfl)
        if name == 'items':
            if d.op == 'dict':
                return lst(*[tup(a, b) for a, b in d.a])
            if d.op == 'dmap':
                return q1('map', d.a[0], tup(d.a[1], d.a[2]), d.a[-1])
            t = mk('items', d)
            ty = typ(d)
            if ty[0] == 'dict':
                CALLTY[t] = ('list', ('tuple', ty[1], ty[2]))
            return t
        if name == 'keys':
            return self.iter_of(d, st, node)
        if name == 'values':
            if d.op == 'dict':
                return lst(*[b for a, b in d.a])
            if d.op == 'dmap':
                return q1('map', d.a[0], d.a[2], d.a[-1])
            t = mk('values', d)
            ty = typ(d)
            if ty[0] == 'dict':
                CALLTY[t] = ('list', ty[2])
            return t
        if name == 'copy':
            return self.new_dict(st, d)
        if name == 'setdefault' and isref:
            k = self.snap(args[0], st)
            v = self.snap(args[1], st) if len(args) > 1 else NONE
            c = in_(k, d)
            new = self.dstore(d, k, v)
            st.heap[recv].val = ite(c, d, new)
            return ite(c, item(d, k), v)
        if name == 'update' and isref and not st.heap[recv].ext:
            o = self.snap(self.deref(args[0], st), st) if args else mk('dict')
            if o.op != 'dict' and typ(o)[0] != 'dict':
                o = self.dict_of_pairs(self.iter_of(args[0], st, node))
            if o.op == 'dict':
                v = d
                for a, b in o.a:
                    v = self.dstore(v, a, b)
                for k, x in kwargs.items():
                    v = self.dstore(v, C(k), self.snap(x, st))
                st.heap[recv].val = v
            else:
                st.heap[recv].val = o if d.op == 'dict' and not d.a else mk('dupd', d, o)
            return NONE
        if name in DICT_MUT:
            self.mutate_value(recv, name, args, st, node)
            return NONE if name in ('update', 'clear') else mk('mcall', name, d, tuple(('', self.snap(x, st)) for x in args))
        return None

    # ------------------------------------------------------------ sets
    def set_method(self, recv, d, name, args, kwargs, st, node):
        isref = recv.op == 'ref' and recv in st.heap and not st.heap[recv].ext
        a = [self.snap(self.deref(x, st), st) for x in args]
        if name == 'add':
            if isref:
                o = st.heap[recv]
                if o.val.op == 'set' and (isc(a[0]) or a[0].op in ('sym', 'item')):
                    o.val = mk('set', *sorted(set(o.val.a) | {a[0]}))
                else:
                    o.val = mk('sadd', o.val, a[0])
                return NONE
            self.mutate_value(recv, name, args, st, node)
            return NONE
        d = self.snap(d, st)
        if name == 'union':
            r = d
            for x in a:
                r = self.set_union(r, x if typ(x)[0] == 'set' else self.mkset(x))
            return self.new_set(st, r)
        if name == 'update' and isref:
            x = a[0]
            st.heap[recv].val = self.set_union(d, x if typ(x)[0] == 'set' else self.mkset(self.iter_of(args[0], st, node)))
            return NONE
        if name in SET_MUT:
            self.mutate_value(recv, name, args, st, node)
            return NONE
        if name == 'copy':
            return self.new_set(st, d)
        if name in ('difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            op = {'difference': 'setdiff', 'intersection': 'setand'}.get(name)
            if op:
                return self.new_set(st, mk(op, d, *a))
            t = mk('mcall', name, d, tuple(('', x) for x in a))
            CALLTY[t] = BOOL
            return t
        return None

    def to_bytes(self, x, args, kwargs):
        n = args[0] if args else kwargs.get('length', ONE)
        o = args[1] if len(args) > 1 else kwargs.get('byteorder', C('big'))
        sg = kwargs.get('signed', FALSE)
        if isc(n) and isc(o) and cval(n) in (1, 2, 4, 8):
            code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[cval(n)]
            if sg is TRUE:
                code = code.lower()
            return mk('pack', mk('sfmt', '<' if cval(o) == 'little' else '>', ((ONE, code),)), (x,))
        return mk('call', 'int.to_bytes', (('', x), ('', n), ('', o)))

    # ------------------------------------------------------------ numpy
    def out_arg(self, val, kwargs, st, node, how):
        """ufunc with an out= argument"""
        out = kwargs.get('out', NONE)
        if out.op == 'tuple' and len(out.a) == 1:
            out = out.a[0]
        if out is NONE:
            return val
        c = self.known(isnone(out), st)
        if c is TRUE:
            return val

        def wr(s, o):
            if self.roots(o, s):
                self.mutate_array(o, how, s, node, value=val, newval=val if o.op not in ('item',) else None)
                return o
            return self.mutate_array(o, how, s, node, value=val, newval=val)
        if c is FALSE:
            return wr(st, out)
        if out.op == 'ite' and out.a[1] is NONE:
            o = out.a[2]
        elif out.op == 'ite' and out.a[2] is NONE:
            o = out.a[1]
        else:
            o = out
        return self.branch_eval(c, lambda s: val, lambda s: wr(s, o), st)

    def nd_method(self, recv, name, args, kwargs, st, node):
        cur = self.use(recv, st)
        a = [self.snap(self.deref(x, st), st) for x in args]
        kw = {k: self.snap(v, st) for k, v in kwargs.items() if k != 'out'}
        if name == 'view':
            c = a[0] if a else kw.get('type', kw.get('dtype'))
            if c is not None and (c.op == 'class' or c.op == 'ext' and c.a[0] == 'numpy.ndarray'):
                # same memory, other class: keep identity, remember the class
                t = recv
                while t.op == 'view':
                    t = t.a[0]
                if c.op == 'ext':
                    return mk('view', t, ND) if typ(t) != ND else t
                return mk('view', t, ('cls', frozenset([c.a[0]])))
            if c is None:
                return recv if self.roots(recv, st) else cur
            self.ev('reinterpret', st, node, arr=cur, dtype=c)
            return mk('ndop', C('viewas'), cur, c)
        if name == 'reshape':
            shp = a[0] if len(a) == 1 else tup(*a)
            if 'shape' in kw:
                shp = kw['shape']
            if shp.op == 'list':
                shp = tup(*shp.a)
            o = kw.get('order')
            if o is not None and o is not C('C'):
                return mk('ndop', C('reshape'), cur, shp, o)
            if self.roots(recv, st):
                cur = recv        # a view: shows later writes
            if cur.op == 'reshape':
                cur = cur.a[0]
            return mk('reshape', cur, shp)
        if name in ('tofile',):
            f = args[0] if args else kwargs.get('fid')
            if len(args) > 1 or 'sep' in kwargs:
                self.unknown.append(('tofile with sep', self.loc(node)))
            return self.write_arr(self.snap(f, st), recv, st, node)
        if name == 'tobytes':
            return mk('tobytes', cur)
        if name == 'byteswap':
            ip = kw.get('inplace', a[0] if a else FALSE)
            if ip is TRUE:
                return self.mutate_array(recv, 'byteswap', st, node, newval=mk('byteswap', cur))
            return mk('byteswap', cur)
        if name == 'newbyteorder':
            return mk('ndop', C('newbyteorder'), cur, *a)
        if name == 'dot':
            v = mk('dot', cur, self.use(a[0], st))
            return self.out_arg(v, kwargs if 'out' in kwargs else ({'out': args[1]} if len(args) > 1 else {}), st, node, 'dot(out=)')
        if name in ('sum', 'mean', 'prod', 'max', 'min', 'argmax', 'argmin', 'std', 'all', 'any'):
            axis = a[0] if a else kw.get('axis', NONE)
            kd = kw.get('keepdims', FALSE)
            v = self.reduce(name, cur, axis, kd, kw)
            return self.out_arg(v, kwargs, st, node, name + '(out=)')
        if name == 'astype':
            d = a[0] if a else kw.get('dtype')
            dt = dtype_of(d) if d is not NONE else '=f8'
            cp = kw.get('copy', TRUE)
            if cp is not TRUE:
                cd = dtype_of(self.dtype_term(cur))
                if dt and cd and dt.lstrip('<>=|') != cd.lstrip('<>=|'):
                    return mk('astype', cur, mk('dtype', dt))
                return mk('asarray', cur)
            return mk('astype', cur, mk('dtype', dt) if dt else d)
        if name == 'copy':
            return mk('astype', cur, self.dtype_term(cur))
        if name in ('squeeze', 'ravel', 'flatten'):
            return mk('reshape', cur, C(-1)) if name != 'flatten' else mk('ndop', C('flatten'), cur)
        if name == 'transpose' and not a:
            return mk('T', cur)
        if name in ('argpartition', 'argsort'):
            t = mk('argpart' if name == 'argpartition' else 'argsort', cur, a[0] if a and name == 'argpartition' else NONE)
            return t
        if name == 'tolist':
            return mk('tolist', cur)
        if name == 'item':
            return mk('item', cur, a[0] if a else ZERO)
        if name in ND_MUT:
            self.mutate_array(recv, name, st, node, value=a[0] if a else NONE)
            return NONE
        if name in ('__getitem__',):
            return self.np_item(recv, a[0], st, node)
        if name == '__len__':
            return self.shape_dim0(cur)
        if name == '__array__':
            return cur
        if name == '__iter__':
            return cur
        return None

    def reduce(self, name, x, axis, kd, kw=None):
        op = {'sum': 'asum', 'mean': 'amean'}.get(name)
        if kd is not FALSE:
            return mk('ndop', C(name), x, axis, C('keepdims'), kd)
        if op:
            return mk(op, x, axis)
        return mk('ndop', C(name), x, axis)

    def np_call(self, name, args, kwargs, st, node):
        a = [self.snap(self.deref(x, st), st) for x in args]
        kw = {k: self.snap(self.deref(v, st), st) for k, v in kwargs.items()}
        u = [self.use(x, st) for x in a]

        def arg(i, n, d=None):
            return a[i] if len(a) > i else kw.get(n, d)
        if name == 'fromfile':
            f, dt, cnt = arg(0, 'file'), arg(1, 'dtype', mk('ext', 'numpy.float64')), arg(2, 'count', C(-1))
            if arg(3, 'sep') is not None and arg(3, 'sep') is not C(''):
                return None
            self.fid_of(f, st)
            pos = st.fpos[f]
            if kw.get('offset') is not None and kw['offset'] is not ZERO:
                self.ev('seek', st, node, file=f, off=kw['offset'], whence=ONE, pos=pos)
                pos = add(pos, kw['offset'])
            d = dtype_of(dt)
            dtt = mk('dtype', d) if d else dt
            k = self.next_rd()
            r = mk('ard', f, C(k), self.bsnap(), dtt, cnt)
            isz = C(itemsize(d)) if d and itemsize(d) else mk('attr', dtt, 'itemsize')
            self.ev('rarr', st, node, file=f, dtype=dtt, count=cnt, arr=r, pos=pos)
            if not CFG['full_reads']:
                self.shapes[r] = (mk('got', r),)
                RNG.setdefault(mk('got', r), (0, 2**63 - 1))
            st.fpos[f] = add(pos, mul(cnt, isz)) if cnt is not C(-1) else mk('eof', f)
            return r
        if name == 'frombuffer':
            buf, dt = arg(0, 'buffer'), arg(1, 'dtype', mk('ext', 'numpy.float64'))
            d = dtype_of(dt)
            r = mk('frombuf', buf, mk('dtype', d) if d else dt, arg(2, 'count', C(-1)), arg(3, 'offset', ZERO))
            self.ev('frombuffer', st, node, buf=buf, dtype=r.a[1], count=r.a[2], offset=r.a[3], arr=r)
            if d and itemsize(d):
                self.shapes[r] = (fdiv(len_(buf), C(itemsize(d))) if r.a[2] is C(-1) else r.a[2],)
            self.dtypes[r] = r.a[1]
            return r
        if name == 'memmap':
            f, dt, mode, off, shp = arg(0, 'filename'), arg(1, 'dtype', mk('ext', 'numpy.uint8')), arg(2, 'mode', C('r+')), arg(3, 'offset', ZERO), arg(4, 'shape', NONE)
            d = dtype_of(dt)
            if shp.op == 'list':
                shp = tup(*shp.a)
            r = mk('memmap', f, mk('dtype', d) if d else dt, mode, off, shp)
            self.ev('memmap', st, node, filename=f, dtype=r.a[1], mode=mode, offset=off, shape=shp, arr=r, order=kw.get('order', C('C')))
            return r
        if name in ('zeros', 'empty', 'ones', 'full'):
            shp = arg(0, 'shape')
            i = 2 if name == 'full' else 1
            dt = arg(i, 'dtype', mk('ext', 'numpy.float64'))
            d = dtype_of(dt)
            if shp.op == 'list':
                shp = tup(*shp.a)
            fill = {'zeros': ZERO, 'ones': ONE, 'empty': mk('uninit')}.get(name) or arg(1, 'fill_value')
            r = mk('alloc', C(self.nalloc_next()), shp, mk('dtype', d) if d else dt, fill, self.bsnap())
            self.ev('alloc', st, node, arr=r, shape=shp)
            return r
        if name in ('zeros_like', 'empty_like', 'ones_like'):
            dt = arg(1, 'dtype')
            d = dtype_of(dt) if dt is not None else None
            r = mk('alloc', C(self.nalloc_next()), self.shape_of(a[0]), mk('dtype', d) if d else self.dtype_term(a[0]), ZERO if name[0] == 'z' else mk('uninit'), self.bsnap())
            return r
        if name == 'reshape':
            return self.nd_method(args[0], 'reshape', [arg(1, 'shape', kw.get('newshape'))], {k: v for k, v in kwargs.items() if k == 'order'}, st, node)
        if name in ('asarray', 'ascontiguousarray', 'require', 'asanyarray', 'array'):
            x = args[0]
            dt = arg(1, 'dtype')
            d = dtype_of(dt) if dt is not None else None
            cs = self.classes_of(x, st)
            if cs and not self.is_nd(x, st):
                fs = [c.find('__array__') for c in cs]
                if len(cs) == 1 and fs[0] is not None and not isinstance(fs[0], str):
                    f = fs[0]
                    n_par = len(f.node.args.args)
                    if dt is not None and n_par < 2:
                        self.ev('badarray', st, node, cls=cs[0].qual)
                    x = self.call_func(f, [x], {}, st, node)
                else:
                    x2 = mk('asarray', self.snap(x, st))
                    self.ev('toarray', st, node, value=self.snap(x, st))
                    if name == 'array':
                        return mk('astype', x2, mk('dtype', d) if d else mk('ext', 'numpy.same'))
                    return x2
            x = self.use(self.snap(self.deref(x, st), st), st)
            if name == 'array' and kw.get('copy') is not FALSE:
                return mk('astype', x, mk('dtype', d) if d else self.dtype_term(x))
            if self.is_nd(x, st):
                if d and dtype_of(self.dtype_term(x)) == d or dt is None:
                    return mk('asarray', x) if x.op in ('view',) else x
                return mk('asarray', x)
            r = mk('asarray', x)
            if typ(x)[0] == 'list':
                self.dtypes[r] = mk('dtype', d) if d else mk('ext', 'numpy.same')
            return r
        if name == 'arange':
            if len(a) == 1 or (len(a) == 2 and a[0] is ZERO):
                return mk('arange', a[-1])
            return mk('arange', *a)
        if name in ('dot', 'matmul', 'inner'):
            return self.out_arg(mk('dot', u[0], u[1]), kwargs, st, node, name + '(out=)')
        if name in ('einsum', 'tensordot'):
            return None
        if name in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'negative', 'floor_divide'):
            f = {'multiply': mul, 'add': add, 'subtract': sub, 'divide': div, 'true_divide': div, 'floor_divide': fdiv}
            if name in ('divide', 'true_divide'):
                self.ev('div', st, node, num=u[0], den=u[1], where=kw.get('where', NONE))
            if name == 'negative':
                v = neg(u[0])
            else:
                v = f[name](u[0], u[1])
            if 'where' in kw and kw['where'] is not TRUE:
                base = kw.get('out', mk('uninit'))
                v = mk('ndop', C('where'), kw['where'], v, self.use(base, st))
            return self.out_arg(v, kwargs if 'out' in kwargs else ({'out': args[2]} if len(args) > 2 else {}), st, node, name + '(out=)')
        if name in ('sum', 'mean', 'prod', 'max', 'min', 'amax', 'amin', 'argmax', 'argmin'):
            v = self.reduce(name.replace('amax', 'max').replace('amin', 'min'), u[0], arg(1, 'axis', NONE), kw.get('keepdims', FALSE))
            return self.out_arg(v, kwargs, st, node, name + '(out=)')
        if name == 'einsum' and len(u) == 3 and isc(u[0]) and isinstance(cval(u[0]), str):
            p = cval(u[0]).replace(' ', '')
            l, _, o = p.partition('->')
            x, _, y = l.partition(',')
            if x == y and len(x) == 2 and o in (x[0], x[1]) and '->' in p:
                return self.reduce('sum', mul(u[1], u[2]), C(1 if o == x[0] else 0), FALSE)
            if x == y and len(x) == 1 and o == '':
                return mk('dot', u[1], u[2])
            if len(x) == 2 and len(y) == 1 and y == x[1] and o == x[0]:
                return mk('dot', u[1], u[2])
        if name == 'linalg.norm':
            axis = arg(2, 'axis', NONE)
            o = arg(1, 'ord', NONE)
            if o is C(1) and axis is not NONE:
                return self.reduce('sum', mk('ndop', C('abs'), u[0]), axis, kw.get('keepdims', FALSE))
            if o.op == 'ext' and o.a[0] == 'numpy.inf' and axis is not NONE:
                return self.reduce('max', mk('ndop', C('abs'), u[0]), axis, kw.get('keepdims', FALSE))
            if o is not NONE and o is not C(2):
                return mk('ndop', C('norm'), u[0], axis, o)
            if kw.get('keepdims', FALSE) is not FALSE:
                return mk('ndop', C('norm'), u[0], axis, C('keepdims'))
            return mk('norm', u[0], axis)
        if name in ('issubdtype',):
            d1 = dtype_of(a[0])
            x = a[1]
            d2 = dtype_of(x)
            if d1 and d2:
                return TRUE if d1.lstrip('<>=|') == d2.lstrip('<>=|') else FALSE
            ab = {'floating': 'f', 'inexact': 'f', 'integer': 'iu', 'signedinteger': 'i', 'unsignedinteger': 'u', 'number': 'fiu', 'generic': 'fiub'}
            if d1 and x.op == 'ext' and x.a[0].split('.')[-1] in ab:
                return TRUE if d1.lstrip('<>=|')[0] in ab[x.a[0].split('.')[-1]] else FALSE
            t = mk('call', 'numpy.issubdtype', (('', a[0]), ('', mk('dtype', d2) if d2 else x)))
            CALLTY[t] = BOOL
            return t
        if name == 'dtype':
            d = dtype_of(a[0])
            return mk('dtype', d) if d else None
        if name in ('argpartition', 'argsort'):
            return self.nd_method(args[0], name, args[1:] or ([kwargs['kth']] if 'kth' in kwargs else []), {}, st, node)
        if name in ('array_equal', 'allclose', 'isscalar', 'any', 'all', 'iscomplexobj'):
            t = mk('call', 'numpy.' + name, tuple(('', x) for x in u))
            CALLTY[t] = BOOL
            return t
        if name == 'where' and len(a) == 3:
            return mk('ndop', C('where'), *u)
        if name in ('maximum', 'minimum', 'sqrt', 'square', 'abs', 'power', 'concatenate', 'vstack', 'hstack', 'stack', 'take', 'clip', 'nonzero', 'count_nonzero', 'isfinite', 'isnan', 'nan_to_num', 'take_along_axis', 'expand_dims', 'squeeze', 'transpose', 'fromiter', 'unique', 'cumsum', 'logical_not', 'not_equal', 'equal', 'greater', 'errstate', 'copy', 'repeat', 'tile', 'outer', 'float32'):
            if name == 'transpose' and len(a) == 1:
                return mk('T', u[0])
            if name == 'copy':
                return mk('astype', u[0], self.dtype_term(u[0]))
            if name == 'float32':
                return u[0]
            if name == 'errstate':
                return mk('ndop', C('errstate'))
            if name == 'sqrt':
                v = mk('ndop', C('sqrt'), u[0])
                # sqrt(sum(x*x)) is the Euclidean norm
                x = u[0]
                if x.op == 'asum':
                    p = _p(x.a[0])
                    if len(p) == 1:
                        (m, c), = p.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 2:
                            v = mk('norm', m[0][0], x.a[1])
                if x.op == 'dot' and x.a[0] is x.a[1]:
                    v = mk('norm', x.a[0], NONE)
                return self.out_arg(v, kwargs, st, node, 'sqrt(out=)')
            if name == 'square':
                return self.out_arg(mul(u[0], u[0]), kwargs, st, node, 'square(out=)')
            if name == 'take' and arg(2, 'axis') is ZERO:
                return item(u[0], a[1])
            v = mk('ndop', C(name), *(u + [mk('kw', C(k), self.use(v, st)) for k, v in sorted(kw.items()) if k not in ('out',)]))
            return self.out_arg(v, kwargs, st, node, name + '(out=)')
        if name == 'add.reduce':
            return None
        if name == 'copyto':
            self.store(args[0], slc(NONE, NONE), args[1], st, node)
            return NONE
        if name in ('random.rand', 'random.random', 'random.shuffle', 'random.permutation', 'random.seed'):
            return None
        return None

    # ------------------------------------------------------------ Cython / C names
    def c_call(self, base, args, kwargs, st, node):
        a = [self.snap(x, st) for x in args]
        if base in ('htole32', 'htole64', 'htole16', 'le32toh', 'le64toh'):
            w = base.replace('htole', '').replace('le', '').replace('toh', '')
            x = cast('uint' + w, a[0])
            return x if self.byteorder == 'little' else mk('htole', C(int(w)), x)
        if base in ('fnv_64a_buf', 'fnv_32a_buf', 'fnv_64_buf', 'fnv_32_buf'):
            t = mk('call', base, (('buf', a[0]), ('len', a[1]), ('h', a[2])))
            CALLTY[t] = INT
            RNG[t] = CT['uint64' if '64' in base else 'uint32']
            return t
        if base == 'array':
            from .interp import Obj
            return self.newref(st, Obj('carray', val=lst()), ('list', INT))
        if base == 'resize' or base == 'resize_smart':
            if a and args[0].op == 'ref' and args[0] in st.heap:
                st.heap[args[0]].val = mk('calloc', a[1])
                CALLTY[st.heap[args[0]].val] = ('list', INT)
                return NONE
        return None


ND_METHODS = {'view', 'reshape', 'tofile', 'tobytes', 'byteswap', 'dot', 'sum', 'mean', 'astype', 'argpartition', 'argsort', 'copy', 'squeeze', 'ravel', 'transpose', 'tolist', 'max', 'min', 'fill'}


def q1(op, n, body, h):
    """quantified term from an existing body with binder level h"""
    from .terms import build
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    return q(op, n, b, subst(body, {mk('bv', h): b}))


def canon_enc(e):
    if isinstance(e, T):
        if not isc(e):
            return e
        e = cval(e)
    e = e.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'u8': 'utf-8', 'us-ascii': 'ascii', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(e, e)


_cdef = {}


def c_define(prog, name, depth=0):
    """integer value of a C macro in src/fnv/*.h"""
    key = (prog.repo, name)
    if key in _cdef:
        return _cdef[key]
    v = None
    p = os.path.join(prog.repo, 'src', 'fnv', 'fnv.h')
    try:
        src = open(p, encoding='latin-1').read()
    except OSError:
        src = ''
    for m in re.finditer(r'^\s*#\s*define\s+%s\s+(.+?)\s*$' % re.escape(name), src, re.M):
        x = m.group(1)
        n = re.search(r'0[xX][0-9a-fA-F]+|\b\d+\b(?=U|L|\)|$)', re.sub(r'\(\s*\w+_t\s*\)', '', x))
        if n:
            v = int(n.group(0), 0)
            break
        w = re.match(r'^\(?(\w+)\)?$', x)
        if w and depth < 4:
            v = c_define(prog, w.group(1), depth + 1)
            if v is not None:
                break
    _cdef[key] = v
    return v


# ------------------------------------------------------------------ builtin functions
def _carray(I, args, kw, st, node):
    from .interp import Obj
    v = mk('calloc', I.snap(args[1], st))
    CALLTY[v] = ('list', INT)
    return I.newref(st, Obj('carray', val=v), ('list', INT))


def _unsupported(I, args, kw, st, node):
    from .interp import Give
    raise Give('construct not translated: %s' % cval(args[0]))


def _isinstance(I, args, kw, st, node):
    x, c = args
    if x.op == 'ite' and (I.classes_of(x.a[1], st) or I.classes_of(x.a[2], st) or typ(x.a[1])[0] != typ(x.a[2])[0]):
        f = lambda y: _isinstance(I, [y, c], {}, st, node)
        return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    cs = list(c.a) if c.op == 'tuple' else [c]
    if c.op == 'ref':
        cs = list(I.deref(c, st).a)
    out = []
    quals = set()
    for k in cs:
        if k.op == 'typeof':
            y = k.a[0]
            kc = I.classes_of(y, st)
            t = mk('isat', x, y)
            CALLTY[t] = BOOL
            out.append(mk('isat', x, y))
            continue
        if k.op == 'class':
            cl = I.prog.classes[k.a[0]]
            sub_ = {q.qual for q in I.prog.classes.values() if cl in q.mro()}
            quals |= sub_
            continue
        if k.op == 'ext':
            n = k.a[0].split('.')[-1]
            ty = typ(x)
            if x.op == 'ref' and ty[0] == 'any':
                ty = typ(I.deref(x, st))
            if n == 'slice' and ty[0] in ('int', 'list', 'str', 'nd', 'tuple'):
                continue
            if x.op == 'slice':
                if n == 'slice':
                    return TRUE
                continue
            if ty[0] == 'opt' and ty[1][0] in ('int', 'str', 'bytes', 'list', 'float', 'bool', 'nd', 'dict', 'tuple', 'set') and (n in BUILTIN_TYPES or n in ('slice', 'ndarray')):
                if ty[1][0] == BUILTIN_TYPES.get(n, 'nd' if n == 'ndarray' else None) or (n == 'int' and ty[1] == BOOL):
                    out.append(not_(isnone(x)))
                continue
            if n in BUILTIN_TYPES:
                if ty[0] == BUILTIN_TYPES[n] or (n == 'int' and ty == BOOL):
                    return TRUE
                if ty[0] in ('any', 'opt'):
                    out.append(mk('isa', x, ('builtins.' + n,)))
                elif n == 'dict' and ty[0] == 'cls':
                    qs = frozenset(q for q in ty[1] if 'builtins.dict' in I.prog.classes[q].ext_base())
                    if qs == ty[1]:
                        return TRUE
                continue
            if n == 'ndarray':
                if I.is_nd(x, st):
                    return TRUE
                if ty[0] == 'any':
                    out.append(mk('isa', x, ('numpy.ndarray',)))
                continue
            if n == 'slice' and ty[0] in ('int', 'list', 'str', 'nd'):
                continue
            out.append(mk('isa', x, (k.a[0],)))
            continue
        out.append(mk('isax', x, k))
    if quals:
        have = I.classes_of(x, st)
        ty = typ(x)
        if x is NONE:
            pass
        elif have:
            hs = {h.qual for h in have}
            if hs <= quals:
                if ty[0] == 'opt':
                    out.append(not_(isnone(x)))
                else:
                    return TRUE
            elif hs & quals:
                out.append(mk('isa', x, tuple(sorted(hs & quals))))
        elif ty[0] in ('any',):
            out.append(mk('isa', x, tuple(sorted(quals))))
    return or_(*out)


def _type(I, args, kw, st, node):
    x = args[0]
    cs = I.classes_of(x, st)
    if x.op == 'ref' and cs:
        return mk('class', cs[0].qual)
    return mk('typeof', I.snap(x, st))


def _len(I, args, kw, st, node):
    return I.length(args[0], st, node)


def _range(I, args, kw, st, node):
    a = [I.snap(x, st) for x in args]
    if len(a) == 1:
        lo, hi, step = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], ONE
    else:
        lo, hi, step = a
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    if step is ONE:
        return qmap(max0(sub(hi, lo)), b, add(lo, b))
    if isc(step) and cval(step) < 0:
        s = -cval(step)
        n = max0(sub(lo, hi)) if s == 1 else max0(fdiv(add(sub(lo, hi), C(s - 1)), C(s)))
        return qmap(n, b, sub(lo, mul(b, C(s))))
    if isc(step) and cval(step) > 0:
        s = cval(step)
        return qmap(max0(fdiv(add(sub(hi, lo), C(s - 1)), C(s))), b, add(lo, mul(b, C(s))))
    return mk('rangex', lo, hi, step)


def seqmap(I, seqs, f, st):
    """map over parallel sequences (already iter_of'ed)"""
    n = None
    for s in seqs:
        L = I.shape_dim0(s) if I.is_nd(s, st) else len_(s)
        if L.op == 'sym' and L.a[0] == '%inf':
            continue
        n = L if n is None else (n if n is L else minmax('min', [n, L]))
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    return qmap(n, b, f(b))


def _enumerate(I, args, kw, st, node):
    s = I.iter_of(args[0], st, node)
    start = I.snap(args[1], st) if len(args) > 1 else kw.get('start', ZERO)
    if s.op in ('list', 'tuple'):
        return lst(*[tup(add(start, C(i)), e) for i, e in enumerate(s.a)])
    if s.op == 'cat' and typ(s)[0] in ('list', 'tuple'):
        # keep pieces
        pass
    return seqmap(I, [s], lambda b: tup(add(start, b), item(s, b)), st)


def _zip(I, args, kw, st, node):
    ss = [I.iter_of(x, st, node) for x in args]
    if all(s.op in ('list', 'tuple') for s in ss):
        return lst(*[tup(*e) for e in zip(*[s.a for s in ss])])
    ks = [s for s in ss if s.op in ('list', 'tuple')]
    if ks and len(ss) == 2:
        # finite with unknown: keep finite length (elementwise), assumes the other is as long
        k = min(len(s.a) for s in ks)
        return lst(*[tup(*[item(s, C(i)) for s in ss]) for i in range(k)])
    return seqmap(I, ss, lambda b: tup(*[item(s, b) for s in ss]), st)


def _map(I, args, kw, st, node):
    f, seqs = args[0], [I.iter_of(x, st, node) for x in args[1:]]
    if len(seqs) == 1 and seqs[0].op in ('list', 'tuple'):
        return lst(*[I.call_value(f, [e], {}, st, node) for e in seqs[0].a])
    if f.op == 'ext' and f.a[0] in ('builtins.str', 'builtins.int', 'builtins.float', 'builtins.repr', 'builtins.len', 'builtins.bytes'):
        return seqmap(I, seqs, lambda b: I.call_value(f, [item(seqs[0], b)], {}, st, node), st)
    acc = I.new_list(st)

    def body(e, s):
        I.list_append(acc, I.call_value(f, [e] if len(seqs) == 1 else list(e.a), {}, s, node), s, node)
    if len(seqs) == 1:
        I.iterate(seqs[0], body, st, node)
    else:
        I.iterate(_zip(I, args[1:], {}, st, node), body, st, node)
    return st.heap[acc].val


def _filter(I, args, kw, st, node):
    f = args[0]
    acc = I.new_list(st)

    def body(e, s):
        c = I.truthy(I.call_value(f, [e], {}, s, node), s) if f is not NONE else I.truthy(e, s)
        v = I.snap(e, s)
        s.heap[acc].val = cat(s.heap[acc].val, ite(c, lst(v), lst()))
    I.iterate(args[1], body, st, node)
    return st.heap[acc].val


def _sum(I, args, kw, st, node):
    s = I.iter_of(args[0], st, node)
    start = I.snap(args[1], st) if len(args) > 1 else kw.get('start', ZERO)
    return add(start, sum_of(I, s, st))


def sum_of(I, s, st):
    if s.op in ('list', 'tuple'):
        r = ZERO
        for e in s.a:
            r = add(r, e)
        return r
    if s.op == 'cat':
        r = ZERO
        for e in s.a:
            r = add(r, sum_of(I, e, st))
        return r
    if s.op == 'map':
        return mksum_q(s)
    if s.op == 'flat':
        h = s.a[2]
        inner = s.a[1]
        b = fresh_binder()
        RNG[b] = (0, 2**63 - 1)
        x = subst(inner, {mk('bv', h): b})
        return qsum(s.a[0], b, sum_of(I, x, st))
    if s.op == 'ite':
        return ite(s.a[0], sum_of(I, s.a[1], st), sum_of(I, s.a[2], st))
    if I.is_nd(s, st):
        return mk('asum', s, ZERO)
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    return qsum(len_(s), b, item(s, b))


def mksum_q(s):
    from .terms import mksum
    return mksum(s.a[0], s.a[1], s.a[2])


def _allany(is_all):
    def f(I, args, kw, st, node):
        s = I.iter_of(args[0], st, node)
        return allany(I, s, is_all, st)
    return f


def allany(I, s, is_all, st):
    if s.op in ('list', 'tuple'):
        return (and_ if is_all else or_)(*[truth(e) for e in s.a])
    if s.op == 'cat':
        return (and_ if is_all else or_)(*[allany(I, e, is_all, st) for e in s.a])
    if s.op == 'ite':
        return ite(s.a[0], allany(I, s.a[1], is_all, st), allany(I, s.a[2], is_all, st))
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    if s.op == 'flat':
        x = subst(s.a[1], {mk('bv', s.a[2]): b})
        body = allany(I, x, is_all, st)
        n = s.a[0]
    else:
        n, body = len_(s), truth(item(s, b))
    return qforall(n, b, body) if is_all else qexists(n, b, body)


def _minmax(op):
    def f(I, args, kw, st, node):
        if len(args) == 1:
            s = I.iter_of(args[0], st, node)
            if s.op in ('list', 'tuple') and s.a and not kw:
                return minmax(op, list(s.a))
            d = kw.get('default')
            key = kw.get('key')
            if key is not None:
                return mk('call', 'builtins.' + op, (('', s), ('key', I.snap(key, st))))
            if s.op in ('values', 'keys'):
                CALLTY.setdefault(s, ('list', typ(s.a[0])[2] if typ(s.a[0])[0] == 'dict' and s.op == 'values' else ANY))
            t = mk(op + 'of', s)
            if typ(s)[0] == 'list' and typ(s)[1] == INT:
                pass
            if d is not None:
                return ite(eq(len_(s), ZERO), d, t)
            I.raises_if(eq(len_(s), ZERO), 'ValueError', st, node)
            I.ev('needs', st, node, cond=not_(eq(len_(s), ZERO)), exc='ValueError')
            return t
        a = [I.snap(x, st) for x in args]
        if all(typ(x) in (INT, BOOL, FLOAT, ANY) for x in a):
            return minmax(op, a)
        return mk(op, *sorted(a))
    return f


def _dict(I, args, kw, st, node):
    if not args:
        d = mk('dict', *[(C(k), I.snap(v, st)) for k, v in kw.items()])
        return I.new_dict(st, d)
    x = I.snap(I.deref(args[0], st), st)
    if typ(x)[0] == 'dict' or x.op in ('dict', 'dmap'):
        d = x
    else:
        cs = I.classes_of(args[0], st)
        if cs and 'builtins.dict' in cs[0].ext_base():
            d = x
        else:
            d = I.dict_of_pairs(I.iter_of(args[0], st, node))
    for k, v in kw.items():
        d = I.dstore(d, C(k), I.snap(v, st))
    return I.new_dict(st, d)


def _dict_fromkeys(I, args, kw, st, node):
    s = I.iter_of(args[0], st, node)
    v = I.snap(args[1], st) if len(args) > 1 else NONE
    if s.op in ('list', 'tuple'):
        return I.new_dict(st, I.dict_of_pairs(lst(*[tup(e, v) for e in s.a])))
    t = mk('dedup', s)
    d = mk('ddef', t, v)
    CALLTY[d] = ('dict', elem_ty(typ(s)), typ(v))
    return I.new_dict(st, d)


def _set(I, args, kw, st, node):
    if not args:
        return I.new_set(st)
    x = I.snap(I.deref(args[0], st), st)
    if typ(x)[0] == 'set':
        return I.new_set(st, x)
    s = I.iter_of(args[0], st, node)
    if s.op == 'setseq':
        return I.new_set(st, s.a[0])
    return I.new_set(st, I.mkset(s))


def _list(I, args, kw, st, node):
    if not args:
        return I.new_list(st)
    s = I.iter_of(args[0], st, node)
    if s.op == 'tuple':
        s = lst(*s.a)
    return I.new_list(st, s)


def _tuple(I, args, kw, st, node):
    if not args:
        return tup()
    s = I.iter_of(args[0], st, node)
    if s.op == 'list':
        return tup(*s.a)
    return s


def _sorted(I, args, kw, st, node):
    s = I.iter_of(args[0], st, node)
    if s.op == 'setseq':
        s = s.a[0]
    if kw or any(x.op == 'obj' for x in closure(s)):
        if s.op != 'setseq' and typ(s)[0] == 'set':
            s = mk('setseq', s)
        return I.new_list(st, sort_term(I, s, kw.get('key', NONE), kw.get('reverse', FALSE), st, node))
    t = mk('sorted', s, ())
    CALLTY[t] = ('list', elem_ty(typ(s)))
    return I.new_list(st, t)


def _iter(I, args, kw, st, node):
    return I.iter_of(args[0], st, node) if typ(args[0]) != FILE else args[0]


def _next(I, args, kw, st, node):
    x = args[0]
    if typ(x) == FILE:
        L = I.file_method(x, 'readline', [], {}, st, node)
        if len(args) > 1:
            return ite(mk('raises', L, 'StopIteration'), args[1], L)
        I.raises_if(mk('raises', L, 'StopIteration'), 'StopIteration', st, node)
        return L
    s = I.iter_of(x, st, node)
    if len(args) > 1:
        if s.op in ('list', 'tuple'):
            return s.a[0] if s.a else args[1]
        return ite(eq(len_(s), ZERO), args[1], item(s, ZERO))
    I.raises_if(eq(len_(s), ZERO), 'StopIteration', st, node)
    return item(s, ZERO)


def _print(I, args, kw, st, node):
    sep = kw.get('sep', C(' '))
    end = kw.get('end', C('\n'))
    sep = C(' ') if sep is NONE else sep
    end = C('\n') if end is NONE else end
    parts = []
    for i, x in enumerate(args):
        if i:
            parts.append(sep)
        if x.op == 'star':
            parts.append(mk('join', sep, mk('strs', I.snap(x.a[0], st))))
        else:
            parts.append(I.to_str(I.snap(I.use(x, st), st)))
    data = cat(*(parts + [end])) if parts else end
    f = kw.get('file')
    if f is None or f is NONE:
        f = mk('ext', 'sys.stdout')
    f = I.snap(f, st)
    if f.op == 'ext':
        I.ev('print', st, node, file=f, data=data)
        return NONE
    I.fid_of(f, st)
    I.ev('write', st, node, file=f, data=data, pos=st.fpos[f], text=TRUE)
    st.fpos[f] = add(st.fpos[f], len_(data))
    return NONE


def _int(I, args, kw, st, node):
    if not args:
        return ZERO
    x = I.snap(I.deref(args[0], st), st)
    if isc(x) and isinstance(cval(x), (int, float, str)):
        try:
            return C(int(cval(x)))
        except ValueError:
            pass
    if typ(x) == BOOL:
        return x
    if typ(x) == INT:
        return x
    if x.op == 'enumcast':
        return x.a[1]
    if x.op == 'str' and typ(x.a[0]) == INT:
        return x.a[0]
    t = mk('int', x)
    I.implicit_raise(t, st, node, exc='ValueError', cond=mk('raises', t, 'ValueError'))
    return t


def _str(I, args, kw, st, node):
    if not args:
        return C('')
    x = I.snap(I.deref(args[0], st), st)
    if len(args) > 1 or 'encoding' in kw:
        return I.str_method(x, 'decode', args[1:], kw, st, node)
    return I.to_str(x)


def _bytes(I, args, kw, st, node):
    if not args:
        return C(b'')
    x = I.snap(I.deref(args[0], st), st)
    if len(args) > 1 or 'encoding' in kw:
        return I.str_method(x, 'encode', args[1:], kw, st, node)
    if typ(x) == BYTES:
        return x
    if typ(x) == INT:
        return mk('rep', C(b'\0'), x)
    return mk('call', 'builtins.bytes', (('', x),))


def _bytearray(I, args, kw, st, node):
    from .interp import Obj
    v = C(b'') if not args else I.snap(I.deref(args[0], st), st)
    return I.newref(st, Obj('bytearray', val=v), BYTES)


def _bool(I, args, kw, st, node):
    return I.truthy(args[0], st, node) if args else FALSE


def _float(I, args, kw, st, node):
    x = I.snap(args[0], st)
    if isc(x):
        try:
            return C(float(cval(x)))
        except (ValueError, TypeError):
            pass
    return x if typ(x) == FLOAT or I.is_nd(x, st) else mk('float', x)


def _pow(I, args, kw, st, node):
    a = [I.snap(x, st) for x in args]
    if len(a) == 3:
        return mod(power(a[0], a[1]), a[2])
    return power(a[0], a[1])


def _ord(I, args, kw, st, node):
    x = I.snap(args[0], st)
    if isc(x):
        return C(ord(cval(x)))
    return mk('ord', x)


def _vars(I, args, kw, st, node):
    x = I.deref(args[0], st) if args else NONE
    if x.op != 'args':
        return mk('call', 'builtins.vars', tuple(('', I.snap(y, st)) for y in args))
    return I.new_dict(st, mk('dict', *[(C(n), I.raw_attr(x, n, st, node)) for n in I.options]))


def _getattr(I, args, kw, st, node):
    if isc(args[1]):
        return I.getattr(args[0], cval(args[1]), st, node)
    return mk('call', 'builtins.getattr', tuple(('', I.snap(x, st)) for x in args))


def _setattr(I, args, kw, st, node):
    if isc(args[1]):
        I.setattr_(args[0], cval(args[1]), args[2], st, node)
    return NONE


def _hasattr(I, args, kw, st, node):
    x = args[0]
    if isc(args[1]):
        n = cval(args[1])
        cs = I.classes_of(x, st)
        if cs:
            hs = [c.find(n) is not None for c in cs]
            if all(hs):
                return TRUE
        ty = typ(x)
        if n == '__iter__' and ty[0] in ('list', 'tuple', 'set', 'dict', 'str', 'bytes', 'nd'):
            return TRUE
        if n == '__iter__' and ty[0] in ('int', 'float', 'bool', 'none'):
            return FALSE
        t = mk('hasattr', I.snap(x, st), n)
        return t
    return None


def _callable(I, args, kw, st, node):
    return TRUE if args[0].op in ('func', 'class', 'bound', 'ext', 'partial') else None


def _reversed(I, args, kw, st, node):
    s = I.iter_of(args[0], st, node)
    if s.op in ('list', 'tuple'):
        return lst(*reversed(s.a))
    if s.op == 'map':
        b = fresh_binder()
        RNG[b] = (0, 2**63 - 1)
        n = s.a[0]
        return qmap(n, b, apply_b(s, sub(sub(n, ONE), b))[0])
    return mk('reversed', s)


def _open(I, args, kw, st, node):
    return I.open_(args, kw, st, node)


def cli_type(kw):
    if kw.get('action') is not None and isc(kw['action']) and cval(kw['action']) in ('store_true', 'store_false'):
        return BOOL
    ty = kw.get('type')
    t = INT if ty is not None and ty.op == 'ext' and ty.a[0] == 'builtins.int' else FLOAT if ty is not None and ty.op == 'ext' and ty.a[0] == 'builtins.float' else STR
    n = kw.get('nargs')
    if n is not None and isc(n) and cval(n) == '?':
        return t if kw.get('default') is not None and typ(kw['default']) == t else ANY
    if n is not None:
        return ('list', t)
    return t


def call_exit(I, st, node):
    return _exit(I, [C(2)], {}, st, node)


def _parser(I, args, kw, st, node):
    return mk('parser', C(I.nalloc_next()))


def _exit(I, args, kw, st, node):
    I.ev('exit', st, node, code=I.snap(args[0], st) if args else NONE)
    I.do_raise('SystemExit', st, node)
    return mk('bottom')


def _pack(I, args, kw, st, node):
    ft = sfmt(args[0])
    vals = []
    for x in args[1:]:
        if x.op == 'star':
            vals.append(mk('star', I.snap(x.a[0], st)))
        else:
            vals.append(I.snap(x, st))
    I.ev('pack', st, node, fmt=ft, args=tuple(vals))
    if ft.op == 'sfmt' and len(ft.a[1]) == 1 and ft.a[1][0][1] == 'x':
        return mk('pad', ft.a[1][0][0]) if ft.a[1][0][0] is not ZERO else C(b'')
    return mk('pack', ft, tuple(vals))


def _unpack(I, args, kw, st, node):
    ft = sfmt(args[0])
    buf = I.snap(I.deref(args[1], st), st)
    I.ev('unpack', st, node, fmt=ft, buf=buf, offset=ZERO)
    v = unpack_vals(ft, buf)
    return v


def _unpack_from(I, args, kw, st, node):
    ft = sfmt(args[0])
    buf = I.snap(I.deref(args[1], st), st)
    off = I.snap(args[2], st) if len(args) > 2 else kw.get('offset', ZERO)
    I.ev('unpack', st, node, fmt=ft, buf=buf, offset=off)
    return unpack_vals(ft, buf, off)


def _iter_unpack(I, args, kw, st, node):
    ft = sfmt(args[0])
    buf = I.snap(I.deref(args[1], st), st)
    b = fresh_binder()
    RNG[b] = (0, 2**63 - 1)
    sz = calcsize(ft)
    I.ev('unpack', st, node, fmt=ft, buf=buf, offset=ZERO, iter=TRUE)
    return qmap(fdiv(len_(buf), sz), b, unpack_vals(ft, buf, mul(b, sz)))


def _calcsize(I, args, kw, st, node):
    return calcsize(sfmt(args[0]))


def _Struct(I, args, kw, st, node):
    return mk('structo', sfmt(args[0]))


def _from_bytes(I, args, kw, st, node):
    buf = I.snap(args[0], st)
    o = args[1] if len(args) > 1 else kw.get('byteorder', C('big'))
    n = len_(buf)
    sg = kw.get('signed', FALSE)
    if isc(n) and cval(n) in (1, 2, 4, 8) and isc(o):
        code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[cval(n)]
        code = code.lower() if sg is TRUE else code
        ft = mk('sfmt', '<' if cval(o) == 'little' else '>', ((ONE, code),))
        I.ev('unpack', st, node, fmt=ft, buf=buf, offset=ZERO)
        return item(unpack_vals(ft, buf), ZERO)
    t = mk('call', 'int.from_bytes', (('', buf), ('', o)))
    CALLTY[t] = INT
    return t


def _cast_c(I, args, kw, st, node):
    from .program import CTY
    ct = CTY.get(cval(args[0]))
    x = I.snap(args[1], st)
    if ct in CT:
        return cast(ct, x)
    return x


def _addr(I, args, kw, st, node):
    x = I.snap(args[0], st)
    arg = node.args[0] if isinstance(node, ast.Call) and node.args else None
    ct = None
    if isinstance(arg, ast.Name):
        ct = I.frames[-1].ctypes.get(arg.id)
    return mk('addr', C(ct), x)


def _sizeof(I, args, kw, st, node):
    from .program import CTY
    s = cval(args[0]) if isc(args[0]) else None
    ct = CTY.get(s)
    if ct in CT:
        return C(int(ct.lstrip('uint')) // 8)
    return None


def _sizeofvar(I, args, kw, st, node):
    arg = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if isinstance(arg, ast.Name):
        ct = I.frames[-1].ctypes.get(arg.id)
        if ct in CT:
            return C(int(ct.lstrip('uint')) // 8)
    return None


def _ident2(I, args, kw, st, node):
    return args[1]


def _ident1(I, args, kw, st, node):
    return args[0]


def _heappush(I, args, kw, st, node):
    h = args[0]
    if h.op == 'ref' and h in st.heap:
        st.heap[h].val = cat(st.heap[h].val, lst(I.snap(args[1], st)))
        return NONE
    I.mutate_value(h, 'heappush', args[1:], st, node)
    return NONE


def _nlargest(op):
    def f(I, args, kw, st, node):
        s = I.iter_of(args[1], st, node)
        t = sort_term(I, s, kw.get('key', args[2] if len(args) > 2 else NONE), TRUE if op == 'nlargest' else FALSE, st, node)
        return I.new_list(st, item(t, slc(NONE, max0(I.snap(args[0], st)))))
    return f


def sort_term(I, s, key, reverse, st, node):
    """stable sort of s by key(element), with the order the elements' class defines"""
    reverse = truth(I.snap(reverse, st))
    note_orders(I, s, st, node)
    keys = NONE
    if key is not NONE:
        b = fresh_binder()
        s2 = st.copy()
        n = len_(s)
        keep, I.trace = I.trace, []
        try:
            keys = qmap(n, b, I.snap(I.call_value(key, [item(s, b)], {}, s2, node), s2))
        finally:
            I.trace = keep
    t = mk('sortby', s, keys, reverse)
    CALLTY[t] = ('list', elem_ty(typ(s)))
    return t


def note_orders(I, s, st, node):
    for x in closure(s):
        if x.op != 'obj' or x.a[0] in ORDER:
            continue
        c = I.prog.classes.get(x.a[0])
        if c is None:
            continue
        f = c.find('__lt__')
        ORDER[c.qual] = None
        if c.is_dataclass and c.dc_order and (f is None or isinstance(f, str)):
            names = []
            for n, d in c.dc_fields:
                skip = isinstance(d, ast.Call) and any(k.arg == 'compare' and isinstance(k.value, ast.Constant) and not k.value.value for k in d.keywords)
                if not skip:
                    names.append(n)
            ORDER[c.qual] = ('fields', tuple(names))
        elif f is not None and not isinstance(f, str):
            fs = [n for n, _ in x.a[1]]
            s2 = st.copy()
            objs = []
            for side in 'ab':
                o = I.newref(s2, type(next(iter(st.heap.values())))('inst', c, {n: sym('%%%s.%s.%s' % (c.qual, side, n), typ(v)) for n, v in x.a[1]}), ('cls', frozenset([c.qual])))
                objs.append(o)
            keep, I.trace = I.trace, []
            try:
                r = truth(I.snap(I.call_func(f, objs, {}, s2, node), s2))
            finally:
                I.trace = keep
            ORDER[c.qual] = ('lt', r, [(n, sym('%%%s.a.%s' % (c.qual, n), typ(v)), sym('%%%s.b.%s' % (c.qual, n), typ(v))) for n, v in x.a[1]])


def _add_reduce(I, args, kw, st, node):
    a = [I.use(I.snap(I.deref(x, st), st), st) for x in args]
    axis = a[1] if len(a) > 1 else kw.get('axis', ZERO)
    kd = kw.get('keepdims', FALSE)
    v = I.reduce('sum', a[0], axis, kd)
    k = dict(kw)
    if len(args) > 3:
        k['out'] = args[3]
    return I.out_arg(v, k, st, node, 'add.reduce(out=)')


def _toml_loads(I, args, kw, st, node):
    t = mk('call', 'toml.loads', (('', I.snap(args[0], st)),))
    CALLTY[t] = ('dict', STR, ANY)
    I.implicit_raise(t, st, node)
    x = I.snap(args[0], st)
    if x.op == 'call' and x.a[0] == 'toml.dumps':
        return x.a[1][0][1]
    return t


def _toml_dumps(I, args, kw, st, node):
    t = mk('call', 'toml.dumps', (('', I.snap(args[0], st)),))
    CALLTY[t] = STR
    return t


def _re_split(I, args, kw, st, node):
    t = mk('resplit', I.snap(args[1], st), args[0], (), args[2] if len(args) > 2 else kw.get('maxsplit', NONE))
    CALLTY[t] = ('list', STR)
    return I.new_list(st, t)


def _partial(I, args, kw, st, node):
    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))


def _chain(I, args, kw, st, node):
    return cat(*[I.iter_of(x, st, node) for x in args])


def _islice(I, args, kw, st, node):
    if typ(args[0]) == FILE:
        L = I.iter_of(args[0], st, node)
        return item(L, slc(NONE, I.snap(args[1], st))) if len(args) == 2 else None
    s = I.iter_of(args[0], st, node)
    if len(args) == 2:
        return item(s, slc(NONE, I.snap(args[1], st)))
    return item(s, slc(I.snap(args[1], st), I.snap(args[2], st)))


def _field(I, args, kw, st, node):
    return kw.get('default', mk('call', 'dataclasses.field', ()))


def _defaultdict(I, args, kw, st, node):
    return I.new_dict(st)


def _repeat(I, args, kw, st, node):
    return None


def _noop(I, args, kw, st, node):
    return NONE


EXT = {
    '%noop': _noop,     'isinstance': _isinstance, 'type': _type, 'len': _len, 'range': _range, 'enumerate': _enumerate, 'zip': _zip, 'map': _map, 'filter': _filter,
    'sum': _sum, 'all': _allany(True), 'any': _allany(False), 'min': _minmax('min'), 'max': _minmax('max'), 'dict': _dict, 'set': _set, 'frozenset': _set,
    'list': _list, 'tuple': _tuple, 'sorted': _sorted, 'iter': _iter, 'next': _next, 'print': _print, 'int': _int, 'str': _str, 'bytes': _bytes,
    'bytearray': _bytearray, 'bool': _bool, 'float': _float, 'pow': _pow, 'ord': _ord, 'getattr': _getattr, 'vars': _vars, 'setattr': _setattr, 'hasattr': _hasattr,
    'callable': _callable, 'reversed': _reversed, 'open': _open, 'io.open': _open, 'exit': _exit, 'sys.exit': _exit, 'memoryview': _ident1,
    'struct.pack': _pack, 'struct.unpack': _unpack, 'struct.unpack_from': _unpack_from, 'struct.iter_unpack': _iter_unpack, 'struct.calcsize': _calcsize,
    'struct.Struct': _Struct, 'builtins.int.from_bytes': _from_bytes, 'builtins.dict.fromkeys': _dict_fromkeys, 'collections.OrderedDict.fromkeys': _dict_fromkeys,
    'collections.OrderedDict': _dict, 'collections.defaultdict': _defaultdict,
    '__unsupported__': _unsupported, '__carray__': _carray, '__cast__': _cast_c, '__addr__': _addr, '__sizeof__': _sizeof, '__sizeofvar__': _sizeofvar, 'typing.cast': _ident2,
    'heapq.heappush': _heappush, 'heapq.nlargest': _nlargest('nlargest'), 'heapq.nsmallest': _nlargest('nsmallest'),
    'numpy.add.reduce': _add_reduce, 'toml.loads': _toml_loads, 'toml.dumps': _toml_dumps, 're.split': _re_split, 'functools.partial': _partial,
    'argparse.ArgumentParser': _parser, 'itertools.chain': _chain, 'itertools.islice': _islice, 'dataclasses.field': _field, 'os.fspath': _ident1, 'abs': None, 'repr': None,
}
EXT = {k: v for k, v in EXT.items() if v is not None}
