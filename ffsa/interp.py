"""Abstract interpretation of finalfusion functions into value terms and effect traces.

One pass over the structured program; branches are joined with gated values,
loops are summarised (closed forms, maps, folds), repository functions are
inlined, library functions are modelled (models.py).  Nothing is executed.
"""
import ast
from .terms import *
from .terms import _closure
from .program import Program, Func, Class, CTY, ctype_type, AnalysisBroken, strip_doc

MAXDEPTH = 40


class Give(Exception):
    """construct outside the modelled subset (turned into an unknown value)"""


class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'val', 'ext')

    def __init__(self, kind, cls=None, fields=None, val=None, ext=False):
        self.kind, self.cls, self.fields, self.val, self.ext = kind, cls, fields, val, ext

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.fields) if self.fields is not None else None, self.val, self.ext)


class State:
    __slots__ = ('frames', 'heap', 'fpos', 'ver', 'pc', 'dead', 'over')

    def __init__(self):
        self.frames, self.heap, self.fpos, self.ver, self.pc, self.dead, self.over = {}, {}, {}, {}, (), False, {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.fpos, s.ver, s.over = dict(self.fpos), dict(self.ver), dict(self.over)
        s.pc, s.dead = self.pc, self.dead
        return s

    def take(self, o):
        self.frames, self.heap, self.fpos, self.ver, self.pc, self.dead, self.over = o.frames, o.heap, o.fpos, o.ver, o.pc, o.dead, o.over

    def lits(self):
        return [l for l, t in self.pc]


class Ev:
    """effect event"""
    __slots__ = ('kind', 'd', 'pc', 'loc', 'body', 'fn')

    def __init__(self, kind, d, pc, loc, fn=None, body=None):
        self.kind, self.d, self.pc, self.loc, self.body, self.fn = kind, d, pc, loc, body, fn

    def subst(self, m):
        e = Ev(self.kind, {k: _sv(v, m) for k, v in self.d.items()}, tuple((subst(l, m), t) for l, t in self.pc), self.loc, self.fn,
               [x.subst(m) for x in self.body] if self.body is not None else None)
        return e

    def guards(self):
        return [l for l, t in self.pc if t == 'branch']

    def __repr__(self):
        s = '%s %s' % (self.kind, ', '.join('%s=%s' % (k, v) for k, v in self.d.items()))
        g = self.guards()
        if g:
            s += '  IF ' + ' & '.join(map(str, g))
        if self.body is not None:
            s += '\n' + '\n'.join('   ' + l for x in self.body for l in repr(x).split('\n'))
        return s


def _sv(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, (tuple, list)):
        return type(v)(_sv(x, m) for x in v)
    return v


class Exit:
    __slots__ = ('st', 'val', 'kind', 'exc', 'loc')

    def __init__(self, st, val=None, kind='return', exc=None, loc=None):
        self.st, self.val, self.kind, self.exc, self.loc = st, val, kind, exc, loc


class Frame:
    def __init__(self, fid, fn, module, parent=None):
        self.fid, self.fn, self.module, self.parent = fid, fn, module, parent
        self.returns = []
        self.ctypes = {}
        self.yields = None
        self.globals_ = set()
        self.nonlocals = set()


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


UNDEF = mk('undef')


def walk_events(evs):
    for e in evs:
        yield e
        if e.body is not None:
            yield from walk_events(e.body)


class Result:
    def __init__(self, val, st, trace, raises, interp):
        self.val, self.st, self.trace, self.raises, self.interp = val, st, trace, raises, interp

    def events(self, *kinds):
        return [e for e in walk_events(self.trace) if not kinds or e.kind in kinds]


from .models import Models  # noqa: E402


class Interp(Models):
    outer = ()              # heaps at the entry of the enclosing loops
    keyerrors = False       # follow missing dictionary keys as KeyError even outside of try
    def __init__(self, prog, opaque=(), byteorder='little', opaque_fn=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.stubs = {}            # qual -> f(I, bound arguments, st, node): result of a call that is only recorded
        self.stubtypes = {}        # qual -> type of the result
        self.cli = {}              # command line option -> given value
        self.options = {}          # command line option -> (flags, keyword arguments, location)
        self.byteorder = byteorder      # 'little' | 'big' | None (symbolic)
        self.trace = []
        self.frames = []
        self.nfid = 0
        self.nref = 0
        self.nrd = 0
        self.nalloc = 0
        self.nloop = 0
        self.outer = []
        self.binders = []
        self.raises = []           # current raise-exit list
        self.loops = []
        self.tries = []
        self.unknown = []          # constructs not understood
        self.stack = []
        self.analysed = set()
        self.shapes = {}           # symbol -> tuple of dims
        self.dtypes = {}
        self.gcache = {}
        self.dynfuncs = {}
        self.callsites = 0
        self.quiet = 0
        self.steps = 0

    # ------------------------------------------------------------ public entry
    def run(self, fn, args=(), kwargs=None, st=None, self_val=None, init=None):
        """analyse function fn (Func) with given argument terms"""
        st = st or State()
        if self_val is not None:
            args = [self_val] + list(args)
        self.trace = []
        self.raises = []
        v = self.inline(fn, list(args), dict(kwargs or {}), st, fn.node)
        return Result(v, st, self.trace, self.raises, self)

    def sym_args(self, fn, **over):
        """typed symbolic arguments for fn's parameters (without self)"""
        out = {}
        a = fn.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        skip = 1 if fn.kind in ('method', 'property', 'setter', 'classmethod') else 0
        for p in params[skip:]:
            if p.arg in over:
                out[p.arg] = over[p.arg]
            else:
                out[p.arg] = sym(p.arg, self.prog.ann_type(fn.module, p.annotation))
        return out

    # ------------------------------------------------------------ helpers
    def loc(self, node):
        fr = self.frames[-1] if self.frames else None
        f = fr.module.rel if fr and fr.module else '?'
        return (f, getattr(node, 'lineno', 0), fr.fn.qual if fr and fr.fn else '<module>')

    def ev(self, kind, st, node, **d):
        if self.quiet:
            return None
        d = {k: (self.snap(v, st) if isinstance(v, T) else v) for k, v in d.items()}
        e = Ev(kind, d, st.pc, self.loc(node), self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else None)
        self.trace.append(e)
        return e

    def top(self, why, node=None, ty=ANY):
        self.unknown.append((why, self.loc(node) if node is not None else None))
        return mk('top', why, self.nalloc_next())

    def nalloc_next(self):
        self.nalloc += 1
        return self.nalloc

    def newref(self, st, obj, ty):
        self.nref += 1
        r = mk('ref', self.nref, ty)
        st.heap[r] = obj
        return r

    def new_list(self, st, val=None):
        return self.newref(st, Obj('list', val=val if val is not None else lst()), ('list', ANY))

    def new_dict(self, st, val=None):
        return self.newref(st, Obj('dict', val=val if val is not None else mk('dict')), ('dict', ANY, ANY))

    def new_set(self, st, val=None):
        return self.newref(st, Obj('set', val=val if val is not None else mk('set')), ('set', ANY))

    def snap(self, t, st, depth=0):
        """replace heap references by their current content"""
        refs = [s for s in _refs(t)]
        if not refs or depth > 8:
            return t
        m = {}
        for r in refs:
            o = st.heap.get(r)
            if o is None:
                continue
            if o.kind == 'inst':
                fs = tuple((k, self.snap(v, st, depth + 1)) for k, v in sorted(o.fields.items()))
                m[r] = mk('obj', o.cls.qual, fs)
            else:
                m[r] = self.snap(o.val, st, depth + 1)
                if o.cls is not None and m[r].op != 'view':
                    m[r] = mk('view', m[r], ('cls', frozenset([o.cls.qual])))
        return subst(t, m)

    def deref(self, t, st):
        """value term of a builtin container reference (lists, dicts, sets)"""
        if t.op == 'ref':
            o = st.heap.get(t)
            if o is not None and o.kind != 'inst':
                return o.val
        if t.op == 'view' and typ(t.a[0])[0] == 'dict':
            return t.a[0]
        if t.op == 'ite' and any(r.op == 'ref' for r in (t.a[1], t.a[2])):
            return ite(t.a[0], self.deref(t.a[1], st), self.deref(t.a[2], st))
        return t

    # ------------------------------------------------------------ pc / merging
    def known(self, c, st):
        """simplify condition under the path condition"""
        if isc(c):
            return c
        for l, t in st.pc:
            if l.op == 'not':
                a, v = l.a[0], FALSE
            else:
                a, v = l, TRUE
            if has(c, a) or (a.op == 'eq' and has(c, a.a[0])):
                c = assume(c, a, v)
            elif l.op in ('and',):
                c = assume_lits(c, l.a)
            elif l.op == 'le0' and has(c, not_(l)):
                c = subst(c, {not_(l): FALSE})
            if isc(c):
                return c
        return c

    def simp(self, v, st):
        """value under the path condition"""
        if isc(v) or not any(x.op == 'ite' for x in _closure(v)):
            return v
        v = self.known(v, st)
        cl = [l for l, _ in st.pc if l.op == 'or']
        return self.spine(v, cl, 0) if cl and v.op == 'ite' else v

    def spine(self, v, cl, n):
        """unit propagation of disjunctive path conditions down the cases of a value"""
        if v.op != 'ite' or not cl or n > 6:
            return v
        c, out = v.a[0], []
        for pol, w in ((TRUE, v.a[1]), (FALSE, v.a[2])):
            rest, units = [], []
            for l in cl:
                l2 = assume(l, c, pol) if has(l, c) or has(l, not_(c)) else l
                if l2 is TRUE:
                    continue
                if l2.op == 'or':
                    rest.append(l2)
                elif l2 is not FALSE:
                    units.append(l2)
            if units:
                w = assume_lits(w, units)
            out.append(self.spine(w, rest, n + 1))
        return ite(c, *out)

    def addpc(self, st, c, tag):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.a:
                self.addpc(st, x, tag)
            return
        if (c, 'branch') in st.pc or (c, 'assume') in st.pc:
            return
        st.pc = st.pc + ((c, tag),)

    def merge(self, c, a, b):
        """join of two surviving states (c true -> a)"""
        s = State()
        fids = [f for f in a.frames if f in b.frames]
        for f in fids:
            d = {}
            x, y = a.frames[f], b.frames[f]
            for k in list(x) + [k for k in y if k not in x]:
                u, v = x.get(k, UNDEF), y.get(k, UNDEF)
                d[k] = u if u is v else (v if u is UNDEF else (u if v is UNDEF else self.mix(c, u, v)))
            s.frames[f] = d
        for r in list(a.heap) + [r for r in b.heap if r not in a.heap]:
            x, y = a.heap.get(r), b.heap.get(r)
            if x is None or y is None:
                s.heap[r] = (x or y).copy()
                continue
            o = x.copy()
            if x.kind == 'inst':
                for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                    u, v = x.fields.get(k, UNDEF), y.fields.get(k, UNDEF)
                    o.fields[k] = u if u is v else (v if u is UNDEF else (u if v is UNDEF else self.mix(c, u, v)))
            else:
                o.val = x.val if x.val is y.val else self.mix(c, x.val, y.val)
            s.heap[r] = o
        for d, x, y in ((s.fpos, a.fpos, b.fpos), (s.over, a.over, b.over), (s.ver, a.ver, b.ver)):
            for k in list(x) + [k for k in y if k not in x]:
                u, v = x.get(k), y.get(k)
                if u is v:
                    d[k] = u
                elif u is None or v is None:
                    if d is s.ver:
                        d[k] = self.mix(c, u or ZERO, v or ZERO)
                    elif d is s.over:
                        base = mk('attr', k[0], k[1])
                        d[k] = self.mix(c, u if u is not None else base, v if v is not None else base)
                    else:
                        d[k] = u if u is not None else v
                else:
                    d[k] = self.mix(c, u, v)
        s.pc = self.merge_pc(a.pc, b.pc)
        return s

    def mix(self, c, u, v):
        return ite(c, u, v)

    def merge_pc(self, p, q_):
        k = 0
        while k < len(p) and k < len(q_) and p[k] == q_[k]:
            k += 1
        out = list(p[:k])
        have = set(out)
        for rest in (p[k:], q_[k:]):
            br = []
            for l, t in rest:
                if t == 'branch':
                    br.append(l)
                else:
                    x = or_(not_(and_(*br)), l)
                    if x is not TRUE and (x, 'assume') not in have:
                        have.add((x, 'assume'))
                        out.append((x, 'assume'))
        bp = and_(*[l for l, t in p[k:] if t == 'branch'])
        bq = and_(*[l for l, t in q_[k:] if t == 'branch'])
        d = or_(bp, bq)
        if d is not TRUE:
            out.append((d, 'branch'))
        return tuple(out)

    def relcond(self, st, base):
        k = 0
        p = st.pc
        while k < len(p) and k < len(base) and p[k] == base[k]:
            k += 1
        return and_(*[l for l, t in p[k:] if t == 'branch'])

    def merge_exits(self, exits, base_pc):
        """[(state, value)] -> (state, value)"""
        st, val = exits[-1]
        st = st.copy()
        for s, v in reversed(exits[:-1]):
            c = self.relcond(s, base_pc)
            if c is TRUE:
                c = not_(self.relcond(st, base_pc))
            st2 = self.merge(c, s, st)
            val = v if v is val else ite(c, v, val) if v is not None and val is not None else (v or val)
            st = st2
        return st, val

    # ------------------------------------------------------------ calls
    def inline(self, fn, args, kwargs, st, node, closure=None):
        if len(self.stack) > MAXDEPTH or self.stack.count(fn.qual) >= 2:
            return self.opaque_call(fn, args, kwargs, st, node)
        self.steps += 1
        if self.steps > 20000:
            raise Give('analysis budget exceeded')
        self.analysed.add(fn.qual)
        self.nfid += 1
        fr = Frame(self.nfid, fn, fn.module, closure)
        env = self.bind(fn, args, kwargs, st, node, fr)
        st.frames[fr.fid] = env
        base = st.pc
        self.frames.append(fr)
        self.stack.append(fn.qual)
        saved_loops, self.loops = self.loops, []
        nraises = len(self.raises)
        try:
            if fn.is_gen:
                y = self.new_list(st)
                env['%yield'] = y
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(fn.node.body, st)
                fr.returns.append(Exit(st.copy(), v))
                st.dead = True
            else:
                self.block(fn.node.body, st)
            if not st.dead:
                fr.returns.append(Exit(st.copy(), NONE))
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loops = saved_loops
        if not fr.returns:
            st.dead = True
            return mk('bottom')
        s2, v = self.merge_exits([(e.st, e.val) for e in fr.returns], base)
        if len(fr.returns) > 1 and not self.caught(nraises, len(self.raises)):
            # a call that does not return has raised
            s2.pc = _retag_all(s2.pc, base)
        if fn.is_gen:
            v = s2.heap[y].val
        s2.frames.pop(fr.fid, None)
        v = self.simp(v, s2)
        s2.dead = False
        st.take(s2)
        ret = getattr(fn.node, 'returns', None)
        if isinstance(ret, ast.Constant) and isinstance(ret.value, str) and ret.value.startswith('c:'):
            ct = CTY.get(ret.value[2:])
            if ct:
                v = cast(ct, v) if v.op != 'sym' else v
        return v

    def bind(self, fn, args, kwargs, st, node, fr=None, named=False):
        a = fn.node.args
        params = [p for p in a.posonlyargs + a.args]
        env = {}
        args = self.expand(args, st)
        nd = len(a.defaults)
        rest = []
        i = 0
        for x in args:
            if x.op == 'star':
                if i >= len(params) or a.vararg:
                    rest.append(x)
                    continue
                # unknown arity: spread by index
                seq = x.a[0]
                k = 0
                while i < len(params) and params[i].arg not in kwargs:
                    env[params[i].arg] = item(seq, C(k))
                    k += 1
                    i += 1
                continue
            if i < len(params):
                env[params[i].arg] = x
                i += 1
            else:
                rest.append(x)
        for k, v in kwargs.items():
            env[k] = v
        dfl = dict(zip([p.arg for p in params[len(params) - nd:]], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[p.arg] = d
        for p in params + a.kwonlyargs:
            if p.arg not in env:
                if p.arg in dfl:
                    env[p.arg] = self.once(dfl[p.arg], fn.module, '%s(%s)' % (fn.qual, p.arg), st)
                else:
                    env[p.arg] = sym(p.arg, self.prog.ann_type(fn.module, p.annotation))
            if p.annotation is not None and isinstance(p.annotation, ast.Constant) and isinstance(p.annotation.value, str) and p.annotation.value.startswith('c:'):
                ct = CTY.get(p.annotation.value[2:])
                if fr is not None and ct:
                    fr.ctypes[p.arg] = ct
                if ct and env[p.arg].op != 'sym':
                    env[p.arg] = cast(ct, env[p.arg])
                elif ct and env[p.arg].op == 'sym' and ct in CT and env[p.arg] not in RNG and env[p.arg].a[0] == p.arg:
                    RNG[env[p.arg]] = CT[ct]
        if a.vararg:
            parts = []
            for x in rest:
                parts.append(x.a[0] if x.op == 'star' else tup(x))
            env[a.vararg.arg] = cat(*parts) if parts else tup()
        if a.kwarg:
            names = {p.arg for p in params + a.kwonlyargs}
            extra = {k: v for k, v in kwargs.items() if k not in names}
            for k in extra:
                env.pop(k, None)
            env[a.kwarg.arg] = mk('dict', *[(C(k), v) for k, v in extra.items()])
        return env

    def expand(self, args, st):
        out = []
        for x in args:
            if x.op == 'star':
                s = self.snap(self.deref(x.a[0], st), st)
                if s.op in ('tuple', 'list'):
                    out.extend(s.a)
                    continue
                if s.op == 'cat' and s.a[0].op in ('tuple', 'list'):
                    for p in s.a:
                        if p.op in ('tuple', 'list'):
                            out.extend(p.a)
                        else:
                            out.append(mk('star', p))
                    continue
                out.append(mk('star', s))
            else:
                out.append(x)
        return out

    def once(self, node, m, name, st):
        """an expression evaluated once at definition time: a container it builds is shared by all later uses"""
        if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)):
            return self.global_value(m, name, node, None, st)
        return self.eval_const(node, _FakeFn(m), st)

    def eval_const(self, node, fn, st):
        fr = Frame(0, None, fn.module)
        self.frames.append(fr)
        self.quiet += 1
        s = State()
        s.frames[0] = {}
        try:
            v = self.eval(node, s)
            return self.snap(v, s)
        finally:
            self.quiet -= 1
            self.frames.pop()

    def opaque_call(self, fn, args, kwargs, st, node):
        env = self.bind(fn, args, kwargs, st, node)
        a = fn.node.args
        order = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else [])
        kv = tuple((p, self.snap(env[p], st)) for p in order if p in env)
        t = mk('call', fn.qual, kv)
        if any(typ(v) == FILE for _, v in kv):
            t = mk('call', fn.qual, kv + (('%k', C(self.next_rd())),) + tuple(('%b', b) for b in self.binders))
        ty = self.prog.ann_type(fn.module, getattr(fn.node, 'returns', None))
        if ty != ANY:
            CALLTY[t] = ty
        self.ev('call', st, node, term=t, qual=fn.qual, args=kv)
        self.implicit_raise(t, st, node)
        return t

    def is_opaque(self, fn):
        if fn.qual in self.opaque:
            return True
        return bool(self.opaque_fn and self.opaque_fn(fn))

    def call_func(self, fn, args, kwargs, st, node, closure=None):
        self.callsites += 1
        if fn.qual in self.stubs:
            env = self.bind(fn, args, kwargs, st, node)
            t = self.opaque_call(fn, args, kwargs, st, node)
            f = self.stubs[fn.qual]
            if fn.qual in self.stubtypes:
                CALLTY[t] = self.stubtypes[fn.qual]
            return t if f is None else f(self, env, st, node)
        if self.is_opaque(fn):
            return self.opaque_call(fn, args, kwargs, st, node)
        return self.inline(fn, args, kwargs, st, node, closure)

    def call_value(self, f, args, kwargs, st, node):
        op = f.op
        if op == 'func':
            fn = self.func_of(f)
            return self.call_func(fn, args, kwargs, st, node, fn.closure)
        if op == 'bound':
            fn = self.func_of(f.a[0])
            return self.call_func(fn, [f.a[1]] + list(args), kwargs, st, node, fn.closure)
        if op == 'class':
            return self.instantiate(self.prog.classes[f.a[0]], args, kwargs, st, node)
        if op == 'ext':
            return self.call_ext(f.a[0], self.expand(args, st), kwargs, st, node)
        if op == 'bmeth':
            return self.call_method(f.a[0], f.a[1], self.expand(args, st), kwargs, st, node)
        if op == 'partial':
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call_value(f.a[0], list(f.a[1]) + list(args), kw, st, node)
        if op == 'structm':
            return self.call_ext('struct.' + f.a[1], [f.a[0]] + self.expand(args, st), kwargs, st, node)
        if op == 'ite':
            return self.branch_eval(f.a[0], lambda s: self.call_value(f.a[1], args, kwargs, s, node),
                                    lambda s: self.call_value(f.a[2], args, kwargs, s, node), st)
        # callable instance
        cs = self.classes_of(f, st)
        if cs:
            return self.call_attr(f, '__call__', args, kwargs, st, node)
        kv = tuple((None, self.snap(x, st)) for x in args) + tuple((k, self.snap(v, st)) for k, v in kwargs.items())
        self.unknown.append(('call of unknown value %s' % show(f), self.loc(node)))
        t = mk('call', '?', (('', f),) + kv)
        self.ev('extcall', st, node, name='?', args=kv, term=t)
        return t

    def func_of(self, f):
        k = f.a[0]
        return self.dynfuncs.get(k) or self.prog.funcs[k]

    def branch_eval(self, c, f1, f2, st):
        c = self.known(c, st)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        base = st.pc
        self.addpc(s1, c, 'branch')
        self.addpc(s2, not_(c), 'branch')
        v1 = f1(s1)
        v2 = f2(s2)
        if s1.dead and s2.dead:
            st.dead = True
            return mk('bottom')
        if s1.dead:
            st.take(s2)
            st.pc = _retag(st.pc, not_(c), base)
            return v2
        if s2.dead:
            st.take(s1)
            st.pc = _retag(st.pc, c, base)
            return v1
        st.take(self.merge(c, s1, s2))
        return ite(c, v1, v2)

    # ------------------------------------------------------------ classes
    def classes_of(self, t, st):
        """possible repository classes of a value, [] if none known"""
        if t.op == 'ref':
            o = st.heap.get(t)
            return [o.cls] if o is not None and (o.kind == 'inst' or o.cls is not None) else []
        if t.op == 'class':
            return []
        if t.op == 'obj' and t.a[0] in self.prog.classes:
            return [self.prog.classes[t.a[0]]]
        ty = typ(t)
        if ty[0] == 'opt':
            ty = ty[1]
        if ty[0] != 'cls':
            for l, tag in st.pc:
                if l.op == 'isa' and l.a[0] is t:
                    ty = ('cls', frozenset(x for x in l.a[1] if x in self.prog.classes))
                    break
            else:
                return []
        qs = set(ty[1])
        for l, tag in st.pc:
            if l.op == 'isa' and l.a[0] is t:
                qs &= set(l.a[1])
            elif l.op == 'not' and l.a[0].op == 'isa' and l.a[0].a[0] is t:
                qs -= set(l.a[0].a[1])
        return [self.prog.classes[x] for x in sorted(qs) if x in self.prog.classes]

    def instantiate(self, c, args, kwargs, st, node):
        if c.is_enum:
            x = args[0] if args else list(kwargs.values())[0]
            return self.enum_cast(c, x, st, node)
        if c.qual in self.opaque:
            kv = tuple((None, self.snap(x, st)) for x in args) + tuple((k, self.snap(v, st)) for k, v in kwargs.items())
            init = c.find('__init__')
            if isinstance(init, Func):
                env = self.bind(init, [NONE] + list(args), kwargs, st, node)
                a = init.node.args
                kv = tuple((p.arg, self.snap(env[p.arg], st)) for p in (a.posonlyargs + a.args + a.kwonlyargs)[1:])
            t = mk('call', c.qual, kv)
            CALLTY[t] = ('cls', frozenset([c.qual]))
            self.ev('call', st, node, term=t, qual=c.qual, args=kv)
            return t
        new = c.find('__new__')
        if isinstance(new, Func):
            return self.call_func(new, [mk('class', c.qual)] + list(args), kwargs, st, node)
        if 'builtins.dict' in c.ext_base() and not isinstance(c.find('__init__'), Func):
            v = self.snap(self.call_ext('builtins.dict', self.expand(args, st), kwargs, st, node), st)
            o = Obj('dict', val=v)
            r = self.newref(st, o, ('cls', frozenset([c.qual])))
            o.cls = c
            return r
        r = self.newref(st, Obj('inst', c, {}), ('cls', frozenset([c.qual])))
        if c.is_dataclass:
            names = [n for n, d in c.dc_fields]
            vals = dict(zip(names, self.expand(args, st)))
            vals.update(kwargs)
            for n, d in c.dc_fields:
                if n not in vals and d is not None:
                    vals[n] = self.eval_const(d, next(iter(c.methods.values()), None) or _FakeFn(c.module), st)
            st.heap[r].fields.update(vals)
            post = c.find('__post_init__')
            if isinstance(post, Func):
                self.call_func(post, [r], {}, st, node)
            return r
        init = c.find('__init__')
        if isinstance(init, Func):
            self.call_func(init, [r] + list(args), kwargs, st, node)
        return r

    def enum_cast(self, c, x, st, node):
        if c.is_intenum:
            ok = self.enum_ok(c, x)
            ok = self.known(ok, st)
            if ok is FALSE:
                self.do_raise('ValueError', st, node, msg=None)
                return mk('bottom')
            if ok is not TRUE:
                s2 = st.copy()
                self.addpc(s2, not_(ok), 'branch')
                self.do_raise('ValueError', s2, node)
                self.addpc(st, ok, 'assume')
            return x
        if isc(x):
            for k, v in c.members.items():
                if v == cval(x):
                    return mk('enum', c.qual, k, v)
            self.do_raise('ValueError', st, node)
            return mk('bottom')
        t = mk('enumcast', c.qual, x)
        CALLTY[t] = ('cls', frozenset([c.qual]))
        return t

    def enum_ok(self, c, x):
        vals = sorted(c.members.values())
        if isc(x):
            return TRUE if cval(x) in vals else FALSE
        return or_(*[eq(x, C(v)) for v in vals])

    def getattr(self, t, name, st, node, raw=False):
        op = t.op
        if op == 'ite':
            return self.branch_eval(t.a[0], lambda s: self.getattr(t.a[1], name, s, node), lambda s: self.getattr(t.a[2], name, s, node), st)
        if op == 'module':
            r = self.prog.resolve_import(t.a[0], name)
            return self.of_resolved(r, st, node) if r else mk('ext', t.a[0] + '.' + name)
        if op == 'ext':
            if t.a[0] == 'sys' and name == 'byteorder':
                return C(self.byteorder) if self.byteorder else sym('sys.byteorder', STR)
            return self.ext_attr(t.a[0], name)
        if op == 'class':
            c = self.prog.classes[t.a[0]]
            if c.is_enum and name in c.members:
                return C(c.members[name]) if c.is_intenum else mk('enum', c.qual, name, c.members[name])
            f = c.find(name)
            if isinstance(f, Func):
                ft = mk('func', f.qual)
                if f.kind == 'classmethod':
                    return mk('bound', ft, t)
                return ft
            if isinstance(f, str):
                return mk('ext', f + '.' + name)
            a = c.find_attr(name)
            if a:
                return self.once(a[1], a[0].module, a[0].name + '.' + name, st)
            if name == '__name__':
                return C(c.name)
            return mk('attr', t, name)
        if op == 'super':
            cq, obj = t.a
            c = self.prog.classes[cq]
            for k in (self.classes_of(obj, st) or [c]):
                f = k.find(name, after=c)
                if isinstance(f, Func):
                    if f.kind == 'property':
                        return self.call_func(f, [obj], {}, st, node)
                    return mk('bound', mk('func', f.qual), obj)
                break
            if name == '__init__':
                return mk('ext', '%noop')
            return self.raw_attr(obj, name, st, node)
        if op == 'enum':
            if name == 'value':
                return C(t.a[2])
            if name == 'name':
                return C(t.a[1])
            c = self.prog.classes.get(t.a[0])
            f = c.find(name) if c is not None else None
            if isinstance(f, Func):
                if f.kind == 'property':
                    return self.call_func(f, [t], {}, st, node)
                return mk('func', f.qual) if f.kind == 'static' else mk('bound', mk('func', f.qual), mk('class', c.qual) if f.kind == 'classmethod' else t)
        if op == 'enumcast' and name == 'value':
            return t.a[1]
        if op == 'ref':
            o = st.heap.get(t)
            if o is not None and o.kind == 'inst' and name in o.fields:
                return o.fields[name]
        if (t, name) in st.over:
            return st.over[(t, name)]
        if op == 'obj':
            for k, v in t.a[1]:
                if k == name:
                    return v
        if raw:
            return self.raw_attr(t, name, st, node)
        cs = self.classes_of(t, st)
        if cs:
            fs = []
            for c in cs:
                f = c.find(name)
                fs.append(f)
            if all(f is fs[0] for f in fs) and isinstance(fs[0], Func):
                f = fs[0]
                if f.kind == 'property':
                    if f.abstract:
                        return self.sym_attr(t, name, f)
                    return self.call_func(f, [t], {}, st, node)
                if f.kind == 'static':
                    return mk('func', f.qual)
                if f.kind == 'classmethod':
                    return mk('bound', mk('func', f.qual), mk('class', cs[0].qual))
                return mk('bound', mk('func', f.qual), t)
            real = [f for f in fs if isinstance(f, Func)]
            if real and len(real) == len(fs):
                if all(f.kind == 'property' for f in real):
                    return self.sym_attr(t, name, *real)
                return mk('vmeth', t, name)
            if real:
                return self.sym_attr(t, name, *real) if all(f.kind == 'property' for f in real) else mk('vmeth', t, name)
            # plain field of a symbolic instance: canonical name via a property returning it
            if op != 'ref':
                for c in cs:
                    a = c.find_attr(name)
                    if a and not c.is_enum:
                        return self.once(a[1], a[0].module, a[0].name + '.' + name, st)
                pn = self.prop_for_field(cs, name)
                if pn and pn != name:
                    f = cs[0].find(pn)
                    return self.sym_attr(t, pn, f)
                if any('numpy.ndarray' in c.ext_base() for c in cs):
                    return self.raw_attr(t, name, st, node)
                if any('builtins.dict' in c.ext_base() for c in cs):
                    return mk('bmeth', t, name)
                a = mk('attr', t, name)
                fty = self.field_type(cs[0], name)
                if fty != ANY:
                    ATTRTY[a] = fty
                ct = cs[0].ctype(name)
                if ct:
                    ATTRTY[a] = ctype_type(ct)
                    if CTY.get(ct) in CT:
                        RNG[a] = CT[CTY[ct]]
                return a
            elif len(cs) == 1 and not name.startswith('__') and st.heap.get(t) is not None and st.heap[t].kind == 'inst' and not st.heap[t].ext:
                c = cs[0]
                plain = all(b.split('.')[-1] in ('ABC', 'Generic', 'Protocol', 'object', 'Sized', 'Collection', 'Iterable', 'Container', 'ABCMeta') for b in c.ext_base())
                if plain and fs[0] is None and not c.find('__getattr__') and not c.find('__getattribute__') and not c.find_attr(name) and not c.ctype(name) and not c.is_enum:
                    self.do_raise('AttributeError', st, node)
                    return mk('bottom')
        return self.raw_attr(t, name, st, node)

    def prop_for_field(self, cs, field):
        names = None
        for c in cs:
            mine = set()
            for k in c.mro():
                if isinstance(k, str):
                    continue
                for n, f in k.methods.items():
                    if f.kind == 'property' and len(f.node.body) == 1 and isinstance(f.node.body[0], ast.Return):
                        v = f.node.body[0].value
                        if isinstance(v, ast.Attribute) and v.attr == field and isinstance(v.value, ast.Name):
                            mine.add(n)
            names = mine if names is None else names & mine
        return sorted(names)[0] if names else None

    def field_type(self, c, name):
        init = c.find('__init__')
        if isinstance(init, Func):
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name:
                    if isinstance(n.value, ast.Name):
                        for p in init.node.args.args:
                            if p.arg == n.value.id:
                                return self.prog.ann_type(init.module, p.annotation)
        return ANY

    def sym_attr(self, t, name, *fs):
        a = mk('attr', t, name)
        ty = None
        for f in fs:
            if f is not None:
                x = self.prog.ann_type(f.module, f.node.returns)
                ty = x if ty is None else join_ty(ty, x)
        ty = ty or ANY
        if ty != ANY:
            ATTRTY[a] = ty
        if name == 'shape':
            return self.shape_of(t)
        return a

    def setattr_(self, t, name, v, st, node):
        if t.op == 'ite':
            c = t.a[0]
            self.branch_eval(c, lambda s: self.setattr_(t.a[1], name, v, s, node) or NONE, lambda s: self.setattr_(t.a[2], name, v, s, node) or NONE, st)
            return
        cs = self.classes_of(t, st)
        for c in cs:
            s = c.find_setter(name)
            if s is not None:
                self.call_func(s, [t, v], {}, st, node)
                return
            g = c.find(name)
            if len(cs) == 1 and g is not None and not isinstance(g, str) and g.kind == 'property':
                self.raises_if(TRUE, 'AttributeError', st, node)
                return
            ct = c.ctype(name)
            if ct and CTY.get(ct) in CT and v.op != 'sym':
                v = cast(CTY[ct], v)
        if t.op == 'ref' and st.heap.get(t) is not None and st.heap[t].kind == 'inst':
            o = st.heap[t]
            if o.ext:
                self.ev('mutate', st, node, target=t, how='setattr:' + name, roots=(t,), value=v)
            else:
                self.ev('setattr', st, node, target=t, name=name, value=v)
            o.fields[name] = v
            return
        self.ev('mutate', st, node, target=t, how='setattr:' + name, roots=self.roots(t, st), value=v)
        st.over[(t, name)] = v

    def call_attr(self, recv, name, args, kwargs, st, node):
        """recv.name(*args)"""
        f = self.getattr(recv, name, st, node)
        if f.op == 'vmeth':
            return self.virtual_call(recv, name, args, kwargs, st, node)
        return self.call_value(f, args, kwargs, st, node)

    def virtual_call(self, recv, name, args, kwargs, st, node):
        cs = self.classes_of(recv, st)
        impls = [c.find(name) for c in cs]
        if name == '__getitem__':
            return item(recv, self.snap(args[0], st))
        # same static result for all classes?
        fn = [f for f in impls if isinstance(f, Func)][0]
        env = None
        if fn.kind in ('static', 'classmethod') and False:
            pass
        env = self.bind(fn, [recv] + list(args) if fn.kind == 'method' else list(args), kwargs, st, node)
        a = fn.node.args
        params = (a.posonlyargs + a.args + a.kwonlyargs)
        if fn.kind in ('method', 'classmethod'):
            params = params[1:]
        kv = tuple((p.arg, self.snap(env[p.arg], st)) for p in params)
        t = mk('mcall', name, self.snap(recv, st), kv)
        if any(typ(v) == FILE for _, v in kv):
            t = mk('mcall', name, self.snap(recv, st), kv + (('%k', C(self.next_rd())),))
        ty = self.prog.ann_type(fn.module, fn.node.returns)
        if ty != ANY:
            CALLTY[t] = ty
        self.ev('vcall', st, node, name=name, recv=recv, args=kv, term=t, impls=tuple(f.qual for f in impls if isinstance(f, Func)))
        self.implicit_raise(t, st, node)
        return t

    # ------------------------------------------------------------ exceptions
    def do_raise(self, exc, st, node, msg=None, kind='raise'):
        self.ev(kind, st, node, exc=exc)
        if not self.quiet:
            self.raises.append(Exit(st.copy(), None, 'raise', exc, self.loc(node)))
        st.dead = True

    def implicit_raise(self, t, st, node, cond=None, exc=None):
        """a call that may raise, relevant only under an enclosing try"""
        tries = self.tries
        if not tries:
            if not (self.keyerrors and exc == 'KeyError'):
                return
            tries = [['Exception']]
        for hs in tries[-1]:
            if exc is not None and not self.exc_match(exc, hs):
                continue
            c = cond if cond is not None else mk('raises', t, hs)
            c = self.known(c, st)
            if c is FALSE:
                continue
            s2 = st.copy()
            self.addpc(s2, c, 'branch')
            self.raises.append(Exit(s2, None, 'raise', exc or hs, self.loc(node)))
            self.addpc(st, not_(c), 'branch')

    EXC_PARENTS = {'KeyError': ['LookupError', 'Exception', 'BaseException'], 'IndexError': ['LookupError', 'Exception', 'BaseException'],
                   'UnicodeDecodeError': ['UnicodeError', 'ValueError', 'Exception', 'BaseException'],
                   'NotImplementedError': ['RuntimeError', 'Exception', 'BaseException'], 'SystemExit': ['BaseException'],
                   'FileNotFoundError': ['OSError', 'Exception', 'BaseException']}

    def exc_match(self, exc, handler):
        if exc == handler or handler in ('*', 'BaseException'):
            return True
        if exc in self.EXC_PARENTS:
            return handler in self.EXC_PARENTS[exc]
        for c in self.prog.classes.values():
            if c.name == exc:
                for k in c.mro():
                    n = k if isinstance(k, str) else k.name
                    if n.split('.')[-1] == handler:
                        return True
        return handler == 'Exception'

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, n, st):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            self.unknown.append(('statement %s' % type(n).__name__, self.loc(n)))
            return
        m(n, st)

    def st_Pass(self, n, st): pass
    def st_Global(self, n, st): self.frames[-1].globals_.update(n.names)
    def st_Nonlocal(self, n, st): self.frames[-1].nonlocals.update(n.names)

    def st_Import(self, n, st):
        for a in n.names:
            r = self.prog.resolve_import(a.name if a.asname else a.name.split('.')[0], None)
            st.frames[self.frames[-1].fid][a.asname or a.name.split('.')[0]] = self.of_resolved(r, st, n)

    def st_ImportFrom(self, n, st):
        mod = n.module or ''
        if n.level:
            m = self.frames[-1].module
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in n.names:
            r = self.prog.resolve_import(mod, a.name)
            st.frames[self.frames[-1].fid][a.asname or a.name] = self.of_resolved(r, st, n) if r else mk('ext', mod + '.' + a.name)

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, st)

    def st_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if st.dead:
            return
        self.frames[-1].returns.append(Exit(st.copy(), v, loc=self.loc(n)))
        self.ev('return', st, n, value=v)
        st.dead = True

    def st_Assign(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return
        for t in n.targets:
            self.assign(t, v, st)

    def st_AnnAssign(self, n, st):
        a = n.annotation
        fr = self.frames[-1]
        if isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.startswith('c:') and isinstance(n.target, ast.Name):
            ct = CTY.get(a.value[2:])
            if ct:
                fr.ctypes[n.target.id] = ct
        if n.value is not None:
            v = self.eval(n.value, st)
            if not st.dead:
                self.assign(n.target, v, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            ct = fr.ctypes.get(t.id)
            if ct and v.op not in ('sym',):
                v = cast(ct, v)
            if t.id in fr.globals_:
                self.ev('mutate', st, t, target=mk('global', fr.module.name, t.id), how='global', roots=(mk('global', fr.module.name, t.id),), value=v)
                st.over[(mk('module', fr.module.name), t.id)] = v
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if f.fid in st.frames and t.id in st.frames[f.fid]:
                        st.frames[f.fid][t.id] = v
                        return
                    f = f.parent
            st.frames[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = self.deref(v, st)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                k = stars[0]
                after = len(t.elts) - k - 1
                for i in range(k):
                    self.assign(t.elts[i], self.subscript(vv, C(i), st, t), st)
                hi = NONE if not after else C(-after)
                self.assign(t.elts[k].value, item(self.snap(vv, st), slc(C(k), hi)), st)
                for j in range(after):
                    self.assign(t.elts[k + 1 + j], item(self.snap(vv, st), C(j - after)), st)
                return
            self.ev('unpackn', st, t, value=v, n=C(len(t.elts)))
            for i, x in enumerate(t.elts):
                self.assign(x, self.subscript(vv, C(i), st, t, unpack=True), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            self.store(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.unknown.append(('assignment target', self.loc(t)))

    def st_AugAssign(self, n, st):
        op = type(n.op)
        if isinstance(n.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(n.target.id, ast.Load()), n), st)
            v = self.eval(n.value, st)
            if st.dead:
                return
            r = self.augmented(cur, op, v, st, n)
            self.assign(n.target, r, st)
        elif isinstance(n.target, ast.Attribute):
            o = self.eval(n.target.value, st)
            cur = self.getattr(o, n.target.attr, st, n)
            v = self.eval(n.value, st)
            r = self.augmented(cur, op, v, st, n)
            if r is not cur:
                self.setattr_(o, n.target.attr, r, st, n)
        elif isinstance(n.target, ast.Subscript):
            o = self.eval(n.target.value, st)
            k = self.eval_index(n.target.slice, st)
            cur = self.subscript(o, k, st, n)
            v = self.eval(n.value, st)
            r = self.binop(op, cur, v, st, n)
            self.store(o, k, r, st, n, aug=True)

    def augmented(self, cur, op, v, st, n):
        """in-place operator on a value; returns the new binding"""
        if cur.op == 'ref' and st.heap.get(cur) is not None and st.heap[cur].kind in ('list', 'bytearray') and op is ast.Add:
            self.list_extend(cur, v, st, n)
            return cur
        if cur.op == 'ref' and st.heap.get(cur) is not None and st.heap[cur].kind == 'set' and op in (ast.BitOr,):
            st.heap[cur].val = self.set_union(st.heap[cur].val, self.snap(self.deref(v, st), st))
            return cur
        ty = typ(cur)
        base = ty[1] if ty[0] == 'opt' else ty
        if base[0] in ('list', 'set', 'dict') and cur.op != 'ref':
            self.ev('mutate', st, n, target=cur, how='inplace', roots=self.roots(cur, st), value=v)
            return self.binop(op, cur, v, st, n)
        if base == ND or (base[0] == 'cls' and set(base[1]) & ND_CLASSES) or (base == ANY and self.may_be_array(cur, st)):
            r = self.binop(op, self.use(cur, st), self.use(v, st), st, n)
            return self.mutate_array(cur, 'inplace:' + op.__name__, st, n, value=v, newval=r)
        return self.binop(op, cur, v, st, n)

    def st_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.mutate_value(o, 'del', (k,), st, n)
            elif isinstance(t, ast.Name):
                st.frames[self.frames[-1].fid].pop(t.id, None)

    def st_Assert(self, n, st):
        c = self.cond(n.test, st)
        if st.dead:
            return
        c = self.known(c, st)
        self.ev('assert', st, n, cond=c)
        if c is TRUE:
            return
        s2 = st.copy()
        self.addpc(s2, not_(c), 'branch')
        if not self.quiet:
            self.raises.append(Exit(s2, None, 'raise', 'AssertionError', self.loc(n)))
        if c is FALSE:
            st.dead = True
            return
        self.addpc(st, c, 'assume')

    def st_Raise(self, n, st):
        exc = '*'
        if n.exc is not None:
            x = n.exc
            if isinstance(x, ast.Call):
                self.quiet += 1
                try:
                    for a in x.args:
                        self.eval(a, st.copy())
                finally:
                    self.quiet -= 1
                x = x.func
            exc = ast.unparse(x).split('.')[-1]
        self.do_raise(exc, st, n)

    def st_If(self, n, st):
        c = self.cond(n.test, st)
        if st.dead:
            return
        c = self.known(c, st)
        if c is TRUE:
            return self.block(n.body, st)
        if c is FALSE:
            return self.block(n.orelse, st)
        self.split(c, lambda s: self.block(n.body, s), lambda s: self.block(n.orelse, s), st)

    def nonraise_exits(self):
        k = len(self.frames[-1].returns) if self.frames else 0
        for l in self.loops:
            k += len(l.breaks) + len(l.continues)
        return k

    def caught(self, i, j):
        """an exception raised since is caught by an enclosing handler: its complement is no assumption of what follows"""
        return any(self.exc_match(e.exc, x) for e in self.raises[i:j] for hs in self.tries for x in hs)

    def split(self, c, f1, f2, st):
        s1, s2 = st.copy(), st.copy()
        base = st.pc
        self.addpc(s1, c, 'branch')
        self.addpc(s2, not_(c), 'branch')
        n0, r0 = self.nonraise_exits(), len(self.raises)
        f1(s1)
        n1, r1 = self.nonraise_exits(), len(self.raises)
        if self.caught(r0, r1):
            n0 = None
        f2(s2)
        n2 = self.nonraise_exits()
        if self.caught(r1, len(self.raises)):
            n2 = None
        if s1.dead and s2.dead:
            st.dead = True
        elif s1.dead:
            st.take(s2)
            if n1 == n0:      # died only by raising
                st.pc = _retag(st.pc, not_(c), base)
        elif s2.dead:
            st.take(s1)
            if n2 == n1:
                st.pc = _retag(st.pc, c, base)
        else:
            st.take(self.merge(c, s1, s2))

    def st_Try(self, n, st):
        htypes = []
        for h in n.handlers:
            if h.type is None:
                htypes.append(['BaseException'])
            elif isinstance(h.type, ast.Tuple):
                htypes.append([ast.unparse(x).split('.')[-1] for x in h.type.elts])
            else:
                htypes.append([ast.unparse(h.type).split('.')[-1]])
        saved = self.raises
        base = st.pc
        fr = self.frames[-1]
        nret = len(fr.returns)
        if n.handlers:
            self.raises = []
            self.tries.append([x for hs in htypes for x in hs])
            self.block(n.body, st)
            self.tries.pop()
            got, self.raises = self.raises, saved
            outs = []
            if not st.dead:
                if n.orelse:
                    self.block(n.orelse, st)
            if not st.dead:
                outs.append((st.copy(), NONE))
            for e in got:
                for h, hs in zip(n.handlers, htypes):
                    if any(self.exc_match(e.exc, x) for x in hs):
                        s = e.st.copy()
                        s.dead = False
                        if fr.fid not in s.frames:
                            s.frames[fr.fid] = dict(st.frames.get(fr.fid, {}))
                        s.frames = {k: v for k, v in s.frames.items() if k in st.frames or k == fr.fid}
                        if h.name:
                            s.frames[fr.fid][h.name] = sym('exc:' + e.exc)
                        n0 = self.nonraise_exits()
                        self.block(h.body, s)
                        if not s.dead:
                            outs.append((s, NONE))
                        elif self.nonraise_exits() == n0 and outs and not outs[0][0].dead:
                            # handler only raises: its complement is an assumption of the rest
                            c = self.relcond(e.st, base)
                            outs[0][0].pc = _retag(outs[0][0].pc, not_(c), base)
                        break
                else:
                    self.raises.append(e)
            if not outs:
                st.dead = True
            else:
                s2, _ = self.merge_exits(outs, base)
                st.take(s2)
                st.dead = False
        else:
            self.block(n.body, st)
        if n.finalbody:
            for e in fr.returns[nret:]:
                d, e.st.dead = e.st.dead, False
                self.block(n.finalbody, e.st)
                e.st.dead = d
            if not st.dead:
                self.block(n.finalbody, st)

    def st_With(self, n, st):
        opened = []
        for it in n.items:
            v = self.eval(it.context_expr, st)
            if st.dead:
                return
            if v.op == 'gencm':
                pass
            fobj = v
            cs = self.classes_of(v, st)
            if cs and isinstance(cs[0].find('__enter__'), Func):
                v2 = self.call_attr(v, '__enter__', [], {}, st, n)
            else:
                v2 = v.a[0] if v.op in ('closing',) else v
            if v2.op == 'fobj':
                self.ev('with', st, n, file=v2)
                opened.append(v2)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, st)
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.block(n.body, st)
        for f in reversed(opened):
            if not st.dead:
                self.ev('close', st, n, file=f)

    def st_FunctionDef(self, n, st):
        self.define(n, st)
        fr = self.frames[-1]
        st.frames[fr.fid][n.name] = mk('func', self._dyn(n))

    def _dyn(self, n):
        return n._ffsa_key

    def define(self, n, st, name=None):
        fr = self.frames[-1]
        key = '%s.<locals>.%s@%d' % (fr.fn.qual if fr.fn else fr.module.name, getattr(n, 'name', '<lambda>'), n.lineno)
        if not isinstance(n, ast.Lambda):
            n.body = strip_doc(n.body) or [ast.Pass()]
        f = Func(getattr(n, 'name', '<lambda>'), key, n, fr.module, None, fr)
        n._ffsa_key = key
        self.dynfuncs[key] = f
        return f

    def st_ClassDef(self, n, st):
        self.unknown.append(('nested class', self.loc(n)))

    def st_Break(self, n, st):
        self.loops[-1].breaks.append(st.copy())
        self.ev('break', st, n)
        st.dead = True

    def st_Continue(self, n, st):
        self.loops[-1].continues.append(st.copy())
        st.dead = True

    # ------------------------------------------------------------ loops
    def st_For(self, n, st):
        seq = self.eval(n.iter, st)
        if st.dead:
            return

        def body(e, s):
            self.assign(n.target, e, s)
            self.block(n.body, s)
        brk = self.iterate(seq, body, st, n, has_break=_has_break(n.body))
        if n.orelse and not st.dead:
            if brk is None or brk is FALSE:
                self.block(n.orelse, st)
            else:
                self.split(brk, lambda s: None, lambda s: self.block(n.orelse, s), st)

    def st_While(self, n, st):
        def body(b, s, first=[True]):
            c = self.cond(n.test, s)
            c = self.known(c, s)
            if c is FALSE:
                self.loops[-1].breaks.append(s.copy())
                s.dead = True
                return
            if c is not TRUE:
                s2 = s.copy()
                self.addpc(s2, not_(c), 'branch')
                self.loops[-1].breaks.append(s2)
                self.addpc(s, c, 'branch')
            self.block(n.body, s)
        r = self.run_loop(INF, body, st, n, while_test=n.test, while_body=n.body)

    def iterate(self, seq, body, st, node, has_break=False):
        """run body(elem, state) for the elements of seq; returns break condition or None"""
        seq = self.iter_of(seq, st, node)
        if seq is NONE:
            self.do_raise('TypeError', st, node)
            return None
        if seq.op in ('list', 'tuple') and len(seq.a) <= 24 and not has_break:
            for e in seq.a:
                if st.dead:
                    return None
                ctx = LoopCtx()
                self.loops.append(ctx)
                base = st.pc
                try:
                    body(e, st)
                finally:
                    self.loops.pop()
                self.join_continues(ctx, st, base)
            return None
        if seq.op == 'cat' and not has_break:
            for p in seq.a:
                if st.dead:
                    return None
                self.iterate(p, body, st, node)
            return None
        if seq.op == 'ite' and not has_break:
            self.split(seq.a[0], lambda s: self.iterate(seq.a[1], body, s, node), lambda s: self.iterate(seq.a[2], body, s, node), st)
            return None
        if seq.op == 'flat' and not has_break:
            return self.run_loop(seq.a[0], lambda b, s: self.iterate(apply_b(seq, b)[0], body, s, node), st, node)
        n = len_(seq)
        return self.run_loop(n, lambda b, s: body(item(seq, b), s), st, node)

    def join_continues(self, ctx, st, base):
        outs = [(s, NONE) for s in ctx.continues]
        if not st.dead:
            outs.append((st.copy(), NONE))
        if not outs:
            st.dead = True
            return
        s2, _ = self.merge_exits(outs, base)
        s2.dead = False
        st.take(s2)

    def diff(self, s0, s1, b):
        """keys whose value changed between the states"""
        out = []
        for f, d in s0.frames.items():
            e = s1.frames.get(f, {})
            for k in d:
                if k in e and e[k] is not d[k]:
                    out.append(('v', f, k))
        for r, o in s0.heap.items():
            p = s1.heap.get(r)
            if p is None:
                continue
            if o.kind == 'inst':
                for k in o.fields:
                    if p.fields.get(k) is not o.fields[k]:
                        out.append(('f', r, k))
            elif p.val is not o.val:
                out.append(('h', r))
        for k, v in s0.fpos.items():
            if s1.fpos.get(k) is not v:
                out.append(('p', k))
        for k, v in s1.ver.items():
            if s0.ver.get(k) is not v and (k in s0.ver or not (k.op in ('alloc', 'ard', 'rdb', 'memmap') and has(k, b))):
                out.append(('w', k))
        for k, v in s0.over.items():
            if s1.over.get(k) is not v:
                out.append(('o', k))
        return out

    def getk(self, s, k):
        if k[0] == 'v':
            return s.frames[k[1]].get(k[2], UNDEF)
        if k[0] == 'f':
            return s.heap[k[1]].fields[k[2]]
        if k[0] == 'h':
            return s.heap[k[1]].val
        if k[0] == 'p':
            return s.fpos[k[1]]
        if k[0] == 'w':
            return s.ver.get(k[1], ZERO)
        return s.over[k[1]]

    def setk(self, s, k, v):
        if k[0] == 'v':
            s.frames[k[1]][k[2]] = v
        elif k[0] == 'f':
            s.heap[k[1]].fields[k[2]] = v
        elif k[0] == 'h':
            s.heap[k[1]].val = v
        elif k[0] == 'p':
            s.fpos[k[1]] = v
        elif k[0] == 'w':
            s.ver[k[1]] = v
        else:
            s.over[k[1]] = v

    def counters(self):
        return (self.nfid, self.nref, self.nrd, self.nalloc, len(self.unknown))

    def reset(self, c):
        self.nfid, self.nref, self.nrd, self.nalloc = c[:4]
        del self.unknown[c[4]:]

    def run_loop(self, n, bodyfn, st, node, while_test=None, while_body=None):
        if n is ZERO:
            return FALSE
        self.nloop += 1
        lid = self.nloop
        b = fresh_binder()
        RNG[b] = (0, 2**63 - 1)
        fr = self.frames[-1]
        carried = []
        cnt = self.counters()
        saved_trace, saved_raises = self.trace, self.raises
        nret = len(fr.returns)
        phis = {}
        for attempt in range(8):
            self.reset(cnt)
            self.trace, self.raises = [], []
            del fr.returns[nret:]
            s = st.copy()
            for k in carried:
                if k not in phis:
                    init = self.getk(st, k)
                    ty = typ(init)
                    if init is UNDEF:
                        ty = ANY
                    phis[k] = mk('sym', '%%phi%d.%s' % (lid, '.'.join(str(x.id if isinstance(x, T) else (x[0].id, x[1]) if isinstance(x, tuple) else x) for x in k)), ty)
                    if k[0] in ('p',):
                        RNG[phis[k]] = (0, None)
                self.setk(s, k, phis[k])
            base = s.pc
            ctx = LoopCtx()
            self.loops.append(ctx)
            self.binders.append(b)
            self.outer.append(st.heap)
            try:
                bodyfn(b, s)
            finally:
                self.loops.pop()
                self.binders.pop()
                self.outer.pop()
            body_trace, body_raises = self.trace, self.raises
            rets = fr.returns[nret:]
            self.join_continues(ctx, s, base)
            if ctx.continues and not s.dead and not ctx.breaks and not rets and not self.caught(0, len(body_raises)):
                # an iteration that does not end here has raised
                s.pc = _retag_all(s.pc, base)
            ends = ([s] if not s.dead else []) + ctx.breaks
            ch = []
            for e in ends:
                for k in self.diff(self._withphi(st, phis, carried), e, b):
                    if k not in carried and k not in ch:
                        ch.append(k)
            if not ch:
                break
            carried = carried + ch
        self.trace, self.raises = saved_trace, saved_raises
        # widen types of phis if the next value has another type: handled via typ join below
        del fr.returns[nret:]
        inits = {k: self.getk(st, k) for k in carried}
        brk = or_(*[self.relcond(x, base) for x in ctx.breaks]) if ctx.breaks else FALSE
        # breaks -> next value at break
        nexts = {}
        for k in carried:
            v = self.getk(s, k) if not s.dead else None
            for x in reversed(ctx.breaks):
                c = self.relcond(x, base)
                bv = self.getk(x, k)
                v = bv if v is None else ite(c, bv, v)
            nexts[k] = v if v is not None else phis[k]
        pre, post = self.solve(carried, inits, phis, nexts, n, b, brk if ctx.breaks else None)
        # counted while loop?
        if while_test is not None and len(ctx.breaks) >= 1 and not getattr(self, '_no_counted', False):
            cw = self.counted_while(ctx, base, pre, phis, b, carried, inits, nexts, s)
            if cw is not None:
                def body2(bb, ss):
                    self.block(while_body, ss)
                self.reset(cnt)
                nb = [x for x in ctx.breaks]
                r = self.run_loop(cw, body2, st, node)
                return r
        m = {phis[k]: pre[k] for k in carried}
        ltr = [e.subst(m) for e in body_trace] if m else body_trace
        le_ = Ev('loop', {'n': n, 'b': b, 'brk': subst(brk, m) if ctx.breaks else FALSE}, st.pc, self.loc(node), fr.fn.qual if fr.fn else None, ltr)
        if not self.quiet and (ltr or ctx.breaks):
            self.trace.append(le_)
        # exits
        k0 = len(base)
        brks = subst(brk, m)
        if rets:
            le_.d['ret'] = or_(*[subst(self.relcond(e.st, base), m) for e in rets])
        for e in body_raises:
            c = subst(self.allcond(e.st, k0), m)
            x = st.copy()
            self.addpc(x, qexists(n, b, c) if n is not INF else mk('sometime', c), 'branch')
            self.raises.append(Exit(x, None, 'raise', e.exc, e.loc))
        stop = []
        rb = list(st.pc)
        for e in rets:
            c = subst(self.relcond(e.st, base), m)
            v = subst(self.snap(e.val, e.st), m)
            if not has(v, b):
                val = v
            else:
                val = q('first', n, b, c, v)
                if typ(v) != ANY:
                    pass
            x = st.copy()
            for k in carried:
                xv = subst(self.getk(e.st, k), m)
                if xv.op == 'ref':
                    xv = post[k]
                self.setk(x, k, xv if not has(xv, b) else q('first', n, b, c, xv))
            for cc in stop:
                self.addpc(x, cc, 'branch')
            ex = qexists(n, b, c) if n is not INF else mk('sometime', c)
            self.addpc(x, ex, 'branch')
            stop.append(not_(ex))
            fr.returns.append(Exit(x, val, loc=e.loc))
        dead_end = s.dead and not ctx.breaks
        # state after the loop
        for k in carried:
            self.setk(st, k, post[k])
        # new frame variables assigned only inside the loop
        if not s.dead or ctx.breaks:
            src = s if not s.dead else ctx.breaks[0]
            d = src.frames.get(fr.fid, {})
            cur = st.frames.get(fr.fid, {})
            for k, v in d.items():
                if k not in cur:
                    last = sub(n, ONE)
                    vv = subst(v, m)
                    if vv.op == 'ref':
                        vv = self.snap(vv, src)
                    cur[k] = subst(vv, {b: last}) if n is not INF else mk('lastval', vv)
            for r, o in src.heap.items():
                if r not in st.heap:
                    o2 = o.copy()
                    if o2.val is not None:
                        o2.val = subst(o2.val, m)
                    st.heap[r] = o2
        # residual facts
        if not s.dead:
            for l, t in s.pc[k0:]:
                l2 = subst(l, m)
                if t == 'assume' and n is not INF and not ctx.breaks:
                    self.addpc(st, qforall(n, b, l2), 'assume')
        for cc in stop:
            self.addpc(st, cc, 'branch')
        if n is INF and not ctx.breaks:
            st.dead = True
        if ctx.breaks and n is not INF:
            return qexists(n, b, brks)
        return FALSE if not ctx.breaks else TRUE

    def allcond(self, s, k0):
        return and_(*[l for l, t in s.pc[k0:]])

    def _withphi(self, st, phis, carried):
        s = st.copy()
        for k in carried:
            self.setk(s, k, phis[k])
        return s

    def counted_while(self, ctx, base, pre, phis, b, carried, inits, nexts, s):
        # only the loop test exits
        if len(ctx.breaks) != 1:
            return None
        x = ctx.breaks[0]
        lits = [l for l, t in x.pc[len(base):]]
        if len(lits) != 1:
            return None
        c = not_(lits[0])
        # closed forms without the break
        pre2, post2 = self.solve(carried, inits, phis, {k: self.getk(s, k) for k in carried} if not s.dead else nexts, INF, b, None)
        c = subst(c, {phis[k]: pre2[k] for k in carried})
        if c.op == 'not' and c.a[0].op == 'eq':
            # x != 0 with x = p0 - b
            p = sub(c.a[0].a[0], c.a[0].a[1])
            d = _p_lin(p, b)
            if d and d[0] in (1, -1):
                nn = d[1] if d[0] == -1 else neg(d[1])
                return nn if nonneg(nn) else None
            return None
        if c.op != 'le0':
            return None
        d = _p_lin(c.a[0], b)
        if not d or not isinstance(d[0], int) or d[0] <= 0:
            return None
        s_, p0 = d
        if any(has(p0, phis[k]) for k in carried):
            return None
        if s_ == 1:
            return max0(add(neg(p0), ONE))
        return max0(add(fdiv(neg(p0), C(s_)), ONE))

    def solve(self, carried, inits, phis, nexts, n, b, brk):
        """closed forms: value before iteration b, value after the loop"""
        pre, post = {}, {}
        left = list(carried)
        allphi = {phis[k] for k in carried}
        progress = brk is None
        while progress and left:
            progress = False
            sol = {phis[k]: pre[k] for k in pre}
            unsolved = {phis[k] for k in left}
            for k in list(left):
                phi, init = phis[k], inits[k]
                nx = subst(nexts[k], sol)
                if nx is phi:
                    pre[k] = post[k] = init
                elif k[0] == 'w':
                    if any(has(nx, u) for u in unsolved if u is not phi):
                        continue
                    bb = fresh_binder()
                    RNG[bb] = (0, 2**63 - 1)
                    pre[k] = mkfold('fold', b, [init], [phi], [subst(nx, {b: bb})], FALSE, 0, bb)
                    post[k] = mkfold('fold', n, [init], [phi], [nx], FALSE, 0, b)
                else:
                    d = None
                    if typ(init)[0] in ('int', 'float', 'bool') or (is_num(nx) and typ(init) in (INT, FLOAT, ND)):
                        d = numdelta(nx, phi)
                        if d is not None and not any(has(d, u) for u in unsolved):
                            bb = fresh_binder()
                            RNG[bb] = (0, 2**63 - 1)
                            if has(d, b):
                                pre[k] = add(init, qsum(b, bb, subst(d, {b: bb})))
                                post[k] = add(init, qsum(n, b, d))
                            else:
                                pre[k] = add(init, mul(b, d))
                                post[k] = add(init, mul(n, d))
                        else:
                            d = None
                    if k not in pre and k[0] in ('h', 'v') and typ(init)[0] in ('list', 'tuple', 'str', 'bytes'):
                        r = seqdelta(nx, phi)
                        if r is not None and not any(has(r, u) for u in unsolved):
                            bb = fresh_binder()
                            RNG[bb] = (0, 2**63 - 1)
                            pre[k] = cat(init, qflat(b, bb, subst(r, {b: bb})))
                            post[k] = cat(init, qflat(n, b, r))
                    if k not in pre and k[0] == 'h' and typ(init)[0] in ('dict', 'set'):
                        r = colldelta(nx, phi)
                        if r is not None and not any(has(x, u) for x in r if x is not None for u in unsolved):
                            kind, c, key, val = r
                            if kind is DICT and init.op == 'dict' and not init.a and c is TRUE:
                                bb = fresh_binder()
                                RNG[bb] = (0, 2**63 - 1)
                                pre[k] = qdmap(b, bb, subst(key, {b: bb}), subst(val, {b: bb}))
                                post[k] = qdmap(n, b, key, val)
                            elif kind is SET and init.op == 'set':
                                bb = fresh_binder()
                                RNG[bb] = (0, 2**63 - 1)
                                e = ite(c, lst(key), lst())
                                pre[k] = mk('setof', cat(lst(*init.a), qflat(b, bb, subst(e, {b: bb}))))
                                post[k] = mk('setof', cat(lst(*init.a), qflat(n, b, e)))
                    if k not in pre and not any(has(nx, u) for u in unsolved):
                        # value of the last iteration
                        pre[k] = ite(eq(b, ZERO), init, subst(nx, {b: sub(b, ONE)})) if init is not UNDEF else subst(nx, {b: sub(b, ONE)})
                        lastv = subst(nx, {b: sub(n, ONE)}) if n is not INF else mk('lastval', nx)
                        post[k] = ite(eq(n, ZERO), init, lastv) if init is not UNDEF and has(nx, b) or init is not UNDEF else lastv
                if k in pre:
                    left.remove(k)
                    progress = True
                    break
        if left:
            sol = {phis[k]: pre[k] for k in pre}
            op = 'fold' if brk is None else 'until'
            ks = [k for k in left]
            ii = [inits[k] if inits[k] is not UNDEF else NONE for k in ks]
            accs = [phis[k] for k in ks]
            nx = [subst(nexts[k], sol) for k in ks]
            cond = subst(brk, sol) if brk is not None else FALSE
            for j, k in enumerate(ks):
                if k[0] == 'w':
                    pre[k] = post[k] = mk('lver', ii[j], n, C('end'))
                    continue
                # minimal dependency slice
                need = _slice(j, accs, nx, cond)
                sub_i = [ii[x] for x in need]
                sub_a = [accs[x] for x in need]
                sub_n = [nx[x] for x in need]
                idx = need.index(j)
                bb = fresh_binder()
                RNG[bb] = (0, 2**63 - 1)
                pre[k] = mkfold(op, b, sub_i, sub_a, [subst(x, {b: bb}) for x in sub_n], subst(cond, {b: bb}), idx, bb)
                post[k] = mkfold(op, n, sub_i, sub_a, sub_n, cond, idx, b)
        return pre, post

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        v = self.eval(n, st)
        return self.truthy(v, st, n)

    def truthy(self, v, st, node=None):
        if v.op == 'ite':
            return self.branch_eval(v.a[0], lambda s: self.truthy(v.a[1], s, node), lambda s: self.truthy(v.a[2], s, node), st)
        cs = self.classes_of(v, st) if typ(v) != BOOL and not isc(v) else None
        if cs:
            fb = [c.find('__bool__') for c in cs]
            fl = [c.find('__len__') for c in cs]
            if fb[0] is not None and not isinstance(fb[0], str) and all(x is fb[0] for x in fb):
                return truth(self.call_func(fb[0], [v], {}, st, node))
            if self.is_nd(self.snap(self.deref(v, st), st), st):
                return self.nd_truth(v, st, node)
            if all(x is not None for x in fl) and not any(fb):
                c = not_(eq(self.length(v, st, node), ZERO))
                return c if typ(v)[0] != 'opt' else and_(not_(isnone(v)), c)
            if any(fl) or any(fb):
                return mk('truth', self.snap(self.deref(v, st), st))
        w = self.deref(v, st)
        if w.op == 'ite':
            return self.branch_eval(w.a[0], lambda s: self.truthy(w.a[1], s, node), lambda s: self.truthy(w.a[2], s, node), st)
        if w.op in ('view', 'ref', 'sym', 'alloc', 'reshape', 'ard', 'memmap') and self.is_nd(w, st):
            return self.nd_truth(v, st, node)
        return truth(self.snap(w, st) if w.op != 'ref' else w)

    def nd_truth(self, v, st, node):
        """the truth value of an array: an error for more than one element"""
        d = self.snap(self.deref(v, st), st)
        s = self.shape_of(d)
        if typ(v)[0] != 'opt' and s.op == 'tuple' and len(s.a) > 0 and node is not None and not self.tries:
            c = self.known(lt(ONE, self.size_of(d)), st)
            if c is TRUE:
                self.do_raise('ValueError', st, node)
                return TRUE
            if c is not FALSE:
                self.split(c, lambda x: self.do_raise('ValueError', x, node), lambda x: None, st)
        return mk('truth', d)

    def eval(self, n, st):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            return self.top('expression %s' % type(n).__name__, n)
        return m(n, st)

    def ex_Constant(self, n, st): return C(n.value)

    def ex_Name(self, n, st):
        name = n.id
        fr = self.frames[-1]
        f = fr
        while f is not None:
            d = st.frames.get(f.fid)
            if d is not None and name in d and name not in f.globals_:
                v = d[name]
                if v.op == 'ite':
                    w = self.simp(v, st)
                    if w is not v:
                        d[name] = w
                    return w
                return v
            f = f.parent
        m = fr.module
        key = (mk('module', m.name), name)
        if key in st.over:
            return st.over[key]
        if name in m.binds:
            r = self.prog.resolve_bind(m, name)
            if r is not None:
                return self.of_resolved(r, st, n)
            b = m.binds[name]
            if b[0] == 'import':
                return mk('ext', (b[1] or '') + ('.' + b[2] if b[2] else ''))
        return mk('ext', 'builtins.' + name)

    def of_resolved(self, r, st, node):
        k = r[0]
        if k == 'func':
            return mk('func', r[1].qual)
        if k == 'class':
            return mk('class', r[1].qual)
        if k == 'module':
            return mk('module', r[1])
        if k == 'ext':
            return self.ext_value(r[1], st)
        if k == 'expr':
            return self.global_value(r[3], r[4], r[1], r[2], st)
        return self.top('unresolved name', node)

    def global_value(self, m, name, node, ann, st):
        key = (m.name, name)
        if key not in self.gcache:
            fr = Frame(0, None, m)
            self.frames.append(fr)
            self.quiet += 1
            s = State()
            s.frames[0] = {}
            try:
                v = self.eval(node, s)
                if v.op == 'ref' and s.heap[v].kind != 'inst':
                    o = s.heap[v]
                    self.gcache[key] = ('mut', o.kind, self.snap(v, s))
                else:
                    self.gcache[key] = ('val', self.snap(v, s))
            finally:
                self.quiet -= 1
                self.frames.pop()
        g = self.gcache[key]
        if g[0] == 'val':
            return g[1]
        r = mk('ref', 'g:%s.%s' % key, {'list': ('list', ANY), 'dict': ('dict', ANY, ANY), 'set': ('set', ANY)}.get(g[1], ANY))
        if r not in st.heap:
            st.heap[r] = Obj(g[1], val=g[2], ext=True)
        return r

    def ex_Attribute(self, n, st):
        v = self.eval(n.value, st)
        if st.dead:
            return mk('bottom')
        r = self.getattr(v, n.attr, st, n)
        if r.op == 'vmeth':
            return r
        return r

    def ex_Subscript(self, n, st):
        v = self.eval(n.value, st)
        k = self.eval_index(n.slice, st)
        if st.dead:
            return mk('bottom')
        return self.subscript(v, k, st, n)

    def eval_index(self, n, st):
        if isinstance(n, ast.Slice):
            g = lambda x: NONE if x is None else self.eval(x, st)
            return slc(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple):
            return tup(*[self.eval_index(x, st) for x in n.elts])
        return self.eval(n, st)

    ex_Slice = eval_index

    def ex_Tuple(self, n, st):
        return self.seq_lit(n.elts, st, 'tuple')

    def seq_lit(self, elts, st, kind):
        parts, cur = [], []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.snap(self.deref(self.eval(e.value, st), st), st)
                if v.op in ('tuple', 'list'):
                    cur.extend(v.a)
                else:
                    if cur:
                        parts.append(mk(kind, *cur))
                        cur = []
                    parts.append(v)
            else:
                cur.append(self.eval(e, st))
        if not parts:
            return mk(kind, *cur)
        if cur:
            parts.append(mk(kind, *cur))
        return cat(*parts)

    def ex_List(self, n, st):
        return self.new_list(st, self.seq_lit(n.elts, st, 'list'))

    def ex_Set(self, n, st):
        v = self.seq_lit(n.elts, st, 'list')
        return self.new_set(st, self.mkset(v))

    def mkset(self, v):
        if v.op in ('list', 'tuple'):
            return mk('set', *sorted(set(v.a)))
        return mk('setof', v)

    def set_union(self, a, b):
        if a.op == 'set' and not a.a:
            return b if b.op in ('set', 'setof') else self.mkset(b)
        if a.op == 'set' and b.op == 'set':
            return mk('set', *sorted(set(a.a) | set(b.a)))
        return mk('union', a, b)

    def ex_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                return self.top('dict unpacking', n)
            items.append((self.snap(self.eval(k, st), st), self.snap(self.eval(v, st), st)))
        return self.new_dict(st, mk('dict', *items))

    def ex_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        if st.dead:
            return mk('bottom')
        return self.binop(type(n.op), a, b, st, n)

    def ex_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st))
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.USub):
            return neg(self.use(v, st))
        if isinstance(n.op, ast.Invert):
            if isc(v) and isinstance(cval(v), int):
                return C(~cval(v))
            return sub(neg(v), ONE)
        return v

    def ex_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s)
            if i == len(n.values) - 1 or s.dead:
                return v
            c = self.known(self.truthy(v, s, n.values[i]), s)
            if c is TRUE:
                return go(i + 1, s) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1, s)
            if is_and:
                return self.branch_eval(c, lambda x: go(i + 1, x), lambda x: (FALSE if typ(v) == BOOL else v), s)
            return self.branch_eval(c, lambda x: (TRUE if typ(v) == BOOL else v), lambda x: go(i + 1, x), s)
        return go(0, st)

    def ex_IfExp(self, n, st):
        c = self.cond(n.test, st)
        return self.branch_eval(c, lambda s: self.eval(n.body, s), lambda s: self.eval(n.orelse, s), st)

    def ex_Compare(self, n, st):
        left = self.eval(n.left, st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            if st.dead:
                return mk('bottom')
            out.append(self.compare(type(op), left, right, st, n))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*[truth(x) for x in out])

    def ex_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if n.args:
                c = self.eval(n.args[0], st)
                o = self.eval(n.args[1], st)
            else:
                fn = None
                for f in reversed(self.frames):
                    if f.fn is not None and f.fn.cls is not None:
                        fn = f
                        break
                c = mk('class', fn.fn.cls.qual)
                o = st.frames[fn.fid][fn.fn.node.args.args[0].arg]
            return mk('super', c.a[0], o)
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value, st)
            if st.dead:
                return mk('bottom')
        else:
            f = self.eval(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(mk('star', self.eval(a.value, st)))
            else:
                args.append(self.eval(a, st))
            if st.dead:
                return mk('bottom')
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = self.deref(v, st)
                if d.op == 'dict':
                    for kk, vv in d.a:
                        kwargs[cval(kk)] = vv
                else:
                    self.unknown.append(('** argument', self.loc(n)))
            else:
                kwargs[k.arg] = v
        if st.dead:
            return mk('bottom')
        if recv is not None:
            return self.attr_call(recv, n.func.attr, args, kwargs, st, n)
        return self.call_value(f, args, kwargs, st, n)

    def attr_call(self, recv, name, args, kwargs, st, n):
        if recv.op == 'ite' and not self.builtin_method_ok(recv, name, st):
            return self.branch_eval(recv.a[0], lambda s: self.attr_call(recv.a[1], name, args, kwargs, s, n),
                                    lambda s: self.attr_call(recv.a[2], name, args, kwargs, s, n), st)
        if recv.op == 'super':
            f = self.getattr(recv, name, st, n)
            if f.op in ('bound', 'func'):
                return self.call_value(f, args, kwargs, st, n)
            return self.raw_method(recv.a[1], name, self.expand(args, st), kwargs, st, n)
        f = self.getattr(recv, name, st, n)
        if st.dead:
            return mk('bottom')
        if f.op == 'vmeth':
            return self.virtual_call(recv, name, args, kwargs, st, n)
        if f.op in ('func', 'bound', 'class', 'ext', 'partial', 'structm'):
            return self.call_value(f, args, kwargs, st, n)
        if f.op == 'attr' and self.classes_of(f, st):
            return self.call_value(f, args, kwargs, st, n)
        if f.op == 'bmeth' or (f.op == 'attr' and f.a[0] is recv):
            return self.call_method(recv, name, self.expand(args, st), kwargs, st, n)
        return self.call_value(f, args, kwargs, st, n)

    def ex_Lambda(self, n, st):
        f = self.define(n, st)
        return mk('func', f.qual)

    def ex_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.eval(v.value, st)
                parts.append(self.fmt_value(x, v, st))
        return cat(C(''), *parts) if parts else C('')

    def fmt_value(self, x, v, st):
        x = self.snap(x, st)
        if v.format_spec is None and v.conversion in (-1, 115):
            return self.to_str(x)
        fs = v.format_spec
        spec = '' if fs is None else ''.join(y.value for y in fs.values) if all(isinstance(y, ast.Constant) for y in fs.values) else ast.unparse(fs)
        if not spec and v.conversion in (-1, 115):
            return self.to_str(x)
        return mk('fmt', x, v.conversion, spec)

    def ex_FormattedValue(self, n, st):
        return self.fmt_value(self.eval(n.value, st), n, st)

    def ex_Starred(self, n, st):
        return mk('star', self.eval(n.value, st))

    def ex_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def ex_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        y = st.frames[self.frames[-1].fid].get('%yield')
        if y is None:
            return self.top('yield', n)
        self.list_append(y, v, st, n)
        return NONE

    def ex_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        y = st.frames[self.frames[-1].fid].get('%yield')
        self.list_extend(y, v, st, n)
        return NONE

    def ex_Await(self, n, st):
        return self.top('await', n)

    # comprehensions: run as loops appending to a hidden list
    def comp(self, n, st, elt):
        fr = self.frames[-1]
        y = self.new_list(st)
        shadow = {}
        d = st.frames[fr.fid]
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for k in names:
            if k in d:
                shadow[k] = d.pop(k)
        sh_ct = {k: fr.ctypes.pop(k) for k in names if k in fr.ctypes}

        def go(i, s):
            if i == len(n.generators):
                self.list_append(y, elt(s), s, n)
                return
            g = n.generators[i]
            seq = self.eval(g.iter, s)

            def body(e, s2):
                self.assign(g.target, e, s2)
                c = TRUE
                for t in g.ifs:
                    c = and_(c, self.cond(t, s2))
                c = self.known(c, s2)
                if c is TRUE:
                    go(i + 1, s2)
                elif c is not FALSE:
                    self.split(c, lambda s3: go(i + 1, s3), lambda s3: None, s2)
            self.iterate(seq, body, s, n)
        go(0, st)
        d = st.frames[fr.fid]
        for k in names:
            d.pop(k, None)
        d.update(shadow)
        fr.ctypes.update(sh_ct)
        v = st.heap[y].val
        return v

    def ex_ListComp(self, n, st):
        return self.new_list(st, self.comp(n, st, lambda s: self.eval(n.elt, s)))

    def ex_GeneratorExp(self, n, st):
        return self.comp(n, st, lambda s: self.eval(n.elt, s))

    def ex_SetComp(self, n, st):
        return self.new_set(st, self.mkset(self.comp(n, st, lambda s: self.eval(n.elt, s))))

    def ex_DictComp(self, n, st):
        v = self.comp(n, st, lambda s: tup(self.snap(self.eval(n.key, s), s), self.snap(self.eval(n.value, s), s)))
        return self.new_dict(st, self.dict_of_pairs(v))


class _FakeFn:
    def __init__(self, module):
        self.module = module


def _refs(t):
    return [s for s in subterms(t) if s.op == 'ref']


def _retag_all(pc, base):
    k = 0
    while k < len(pc) and k < len(base) and pc[k] == base[k]:
        k += 1
    return pc[:k] + tuple((l, 'assume') for l, t in pc[k:])


def _retag(pc, c, base):
    """literals of c added since the path condition base become assumptions"""
    lits = set(c.a) if c.op == 'and' else {c}
    k = 0
    while k < len(pc) and k < len(base) and pc[k] == base[k]:
        k += 1
    return pc[:k] + tuple((l, 'assume') if l in lits and t == 'branch' else (l, t) for l, t in pc[k:])


def _has_break(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            st.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _p_lin(p, b):
    """p = s*b + rest -> (s, rest) or None"""
    from .terms import _p, _mkp
    d = _p(p)
    s, rest = 0, {}
    for m, c in d.items():
        if m == ((b, 1),):
            s = c
        elif any(has(f, b) for f, e in m):
            return None
        else:
            rest[m] = c
    return (s, _mkp(rest))


def numdelta(nx, phi):
    if nx.op == 'ite':
        if has(nx.a[0], phi):
            return None
        x, y = numdelta(nx.a[1], phi), numdelta(nx.a[2], phi)
        return None if x is None or y is None else ite(nx.a[0], x, y)
    d = sub(nx, phi)
    return None if has(d, phi) else d


def seqdelta(nx, phi):
    if nx is phi:
        return lst()
    if nx.op == 'ite':
        if has(nx.a[0], phi):
            return None
        x, y = seqdelta(nx.a[1], phi), seqdelta(nx.a[2], phi)
        return None if x is None or y is None else ite(nx.a[0], x, y)
    if nx.op == 'cat' and nx.a[0] is phi:
        r = cat(*nx.a[1:])
        return None if has(r, phi) else r
    if nx.op == 'cat' and nx.a[0].op == 'ite':
        x = seqdelta(nx.a[0], phi)
        if x is None:
            return None
        r = cat(x, *nx.a[1:])
        return None if has(r, phi) else r
    return None


DICT, SET = C('dict'), C('set')


def colldelta(nx, phi):
    """(kind, cond, key, val) for one conditional insertion"""
    if nx.op == 'dstore' and nx.a[0] is phi and not has(nx.a[1], phi) and not has(nx.a[2], phi):
        return (DICT, TRUE, nx.a[1], nx.a[2])
    if nx.op == 'sadd' and nx.a[0] is phi and not has(nx.a[1], phi):
        return (SET, TRUE, nx.a[1], NONE)
    if nx.op == 'ite' and not has(nx.a[0], phi):
        c = nx.a[0]
        if nx.a[2] is phi:
            r = colldelta(nx.a[1], phi)
            return r and (r[0], and_(c, r[1]), r[2], r[3])
        if nx.a[1] is phi:
            r = colldelta(nx.a[2], phi)
            return r and (r[0], and_(not_(c), r[1]), r[2], r[3])
    return None


def _slice(j, accs, nx, cond):
    need = [j]
    i = 0
    cl = [frozenset(x for x in range(len(accs)) if has(nx[y], accs[x])) for y in range(len(accs))]
    cc = [x for x in range(len(accs)) if has(cond, accs[x])]
    todo = list(cc)
    while i < len(need):
        for x in sorted(cl[need[i]]) + todo:
            if x not in need:
                need.append(x)
        todo = []
        i += 1
    return sorted(need)
