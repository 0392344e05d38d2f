"""Loads and resolves the finalfusion sources (Python and Cython), no execution."""
import ast
import os
from . import cyfront
from .terms import *

REPO = os.environ.get('FFSA_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone (public API missing, file unparsable)."""


class Func:
    def __init__(self, name, qual, node, module, cls=None, closure=None, kind='func'):
        self.name, self.qual, self.node, self.module, self.cls, self.closure = name, qual, node, module, cls, closure
        self.kind = kind            # func, method, static, classmethod, property, setter
        self.abstract = False
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))
        self.cdivision = False
        self.decos = []

    @property
    def file(self):
        return self.module.rel

    def __repr__(self):
        return '<Func %s>' % self.qual


def _walk_own(fn):
    """nodes of a function without nested function bodies"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods, self.setters, self.attrs, self.ctypes = {}, {}, {}, {}
        self.annots = {}
        self.bases = []          # Class or str (external dotted)
        self.is_enum = False
        self.is_intenum = False
        self.is_dataclass = False
        self.dc_order = False
        self.dc_fields = []
        self.members = {}

    def mro(self):
        out, seen = [], set()

        def go(c):
            if isinstance(c, str):
                if c not in seen:
                    seen.add(c)
                    out.append(c)
                return
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                go(b)
        # C3 for simple hierarchies: depth-first, then move repeated bases last
        lin = _c3(self)
        return lin

    def find(self, name, after=None):
        ok = after is None
        for c in self.mro():
            if isinstance(c, str):
                if ok and c in EXT_HAS and name in EXT_HAS[c]:
                    return c
                continue
            if ok and name in c.methods:
                return c.methods[name]
            if after is not None and c is after:
                ok = True
        return None

    def find_setter(self, name):
        for c in self.mro():
            if not isinstance(c, str) and name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if not isinstance(c, str) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def ctype(self, name):
        for c in self.mro():
            if not isinstance(c, str) and name in c.ctypes:
                return c.ctypes[name]
        return None

    def ext_base(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def abstract_methods(self):
        out = set()
        seen = set()
        for c in self.mro():
            if isinstance(c, str):
                continue
            for n, f in c.methods.items():
                if n not in seen:
                    seen.add(n)
                    if f.abstract:
                        out.add(n)
        return out

    def __repr__(self):
        return '<Class %s>' % self.qual


def _c3(c):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in t if x is not h and x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        return res
    if isinstance(c, str):
        return [c]
    return [c] + merge([_c3(b) for b in c.bases] + [list(c.bases)])


EXT_HAS = {'numpy.ndarray': {'__getitem__', '__len__', '__iter__', 'view', 'shape', 'size', 'dtype', 'ndim', 'dot', 'tofile',
                             'byteswap', 'reshape', 'sum', 'mean', 'T', '__setitem__', 'copy', 'astype', '__eq__', '__contains__', '__array__'},
           'builtins.dict': {'__getitem__', '__len__', '__iter__', '__setitem__', 'get', 'items', 'keys', 'values', '__contains__', '__eq__', '__init__', 'update', 'pop'}}

BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
BUILTIN_NAMES |= {'__cast__', '__addr__', '__sizeof__', '__sizeofvar__'}


class Module:
    def __init__(self, name, path, tree, rel, is_pkg):
        self.name, self.path, self.tree, self.rel, self.is_pkg = name, path, tree, rel, is_pkg
        self.binds = {}      # name -> ('func',Func)|('class',Class)|('import',modname,attr|None)|('expr',node,ann)
        self.doc = None


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


class ObjDict(ast.NodeTransformer):
    """X.__dict__ accesses written as getattr, setattr and hasattr"""
    def of(self, n):
        return n.value if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) else None

    def call(self, at, fn, *args):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=fn, ctx=ast.Load()), at), args=list(args), keywords=[]), at)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        x = self.of(n.value)
        return self.call(n, 'getattr', x, n.slice) if x is not None and isinstance(n.ctx, ast.Load) else n

    def visit_Compare(self, n):
        self.generic_visit(n)
        x = self.of(n.comparators[0]) if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) else None
        if x is None:
            return n
        r = self.call(n, 'hasattr', x, n.left)
        return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), n)

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        x = self.of(t.value) if len(n.targets) == 1 and isinstance(t, ast.Subscript) else None
        return ast.copy_location(ast.Expr(value=self.call(n, 'setattr', x, t.slice, n.value)), n) if x is not None else n

    def visit_Call(self, n):
        self.generic_visit(n)
        x = self.of(n.func.value) if isinstance(n.func, ast.Attribute) and not n.keywords else None
        if x is None or not n.args or not isinstance(n.args[0], ast.Constant):
            return n
        k, none = n.args[0], ast.copy_location(ast.Constant(value=None), n)
        if n.func.attr == 'get' and len(n.args) < 3:
            return self.call(n, 'getattr', x, k, n.args[1] if len(n.args) == 2 else none)
        if n.func.attr == 'setdefault' and len(n.args) < 3:
            put = self.call(n, 'setattr', x, k, n.args[1] if len(n.args) == 2 else none)
            both = ast.copy_location(ast.Tuple(elts=[put, self.call(n, 'getattr', x, k)], ctx=ast.Load()), n)
            last = ast.copy_location(ast.Subscript(value=both, slice=ast.copy_location(ast.Constant(value=1), n), ctx=ast.Load()), n)
            return ast.copy_location(ast.IfExp(test=self.call(n, 'hasattr', x, k), body=self.call(n, 'getattr', x, k), orelse=last), n)
        return n


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, 'src')
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.consts = {}
        self.parse_errors = []
        self._load()

    # -- loading
    def _load(self):
        base = os.path.join(self.root, 'finalfusion')
        if not os.path.isdir(base):
            raise AnalysisBroken('src/finalfusion is missing')
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = [x for x in ds if x != '__pycache__']
            for f in sorted(fs):
                if not f.endswith(('.py', '.pyx')):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                mod = rel.rsplit('.', 1)[0].replace(os.sep, '.')
                pkg = mod.endswith('.__init__')
                if pkg:
                    mod = mod[:-9]
                try:
                    if f.endswith('.py'):
                        with open(p, encoding='utf-8') as fh:
                            tree = ObjDict().visit(ast.parse(fh.read()))
                    else:
                        tree = cyfront.parse_pyx(p)
                except Exception as e:  # unparsable source
                    raise AnalysisBroken('cannot parse %s: %s: %s' % (p, type(e).__name__, e))
                self.modules[mod] = Module(mod, p, tree, os.path.join('src', rel), pkg)
        for m in list(self.modules.values()):
            self._bind(m)
        for c in list(self.classes.values()):
            self._resolve_class(c)
        for c in self.classes.values():
            if 'numpy.ndarray' in c.ext_base():
                ND_CLASSES.add(c.qual)
        self._load_pxd()

    def add_module(self, name, path):
        """additional module (reference specifications)"""
        with open(path, encoding='utf-8') as fh:
            tree = ast.parse(fh.read()) if path.endswith('.py') else cyfront.parse_pyx(path)
        m = Module(name, path, tree, os.path.basename(path), False)
        self.modules[name] = m
        before = set(self.classes)
        self._bind(m)
        for q in set(self.classes) - before:
            self._resolve_class(self.classes[q])
        return m

    def _bind(self, m):
        m.tree.body = strip_doc(m.tree.body)
        self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                f = self._mkfunc(s, m, None)
                m.binds[s.name] = ('func', f)
            elif isinstance(s, ast.ClassDef):
                m.binds[s.name] = ('class', self._mkclass(s, m))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.binds[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                mod = s.module or ''
                c = mod.startswith('c:')
                if c:
                    mod = mod[2:]
                if s.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in s.names:
                    m.binds[a.asname or a.name] = ('import', mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.binds[t.id] = ('expr', s.value, None)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                m.binds[a.id] = ('expr', b, None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.binds[s.target.id] = ('expr', s.value, s.annotation)
            elif isinstance(s, ast.If):
                self._bind_body(m, s.body)
                self._bind_body(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._bind_body(m, s.body)

    def _deco_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        return ast.unparse(d)

    def _mkfunc(self, node, m, cls):
        qual = m.name + '.' + ((cls.name + '.') if cls else '') + node.name
        node.body = strip_doc(node.body) or [ast.Pass()]
        f = Func(node.name, qual, node, m, cls)
        ds = [self._deco_name(d) for d in node.decorator_list]
        f.decos = ds
        if any(d.split('.')[-1] in ('lru_cache', 'cache') for d in ds):
            self._memoised(f, m)
        if cls:
            f.kind = 'method'
            if node.name in ('__new__',):
                f.kind = 'static'
        for d in ds:
            b = d.split('.')[-1]
            if b == 'staticmethod':
                f.kind = 'static'
            elif b == 'classmethod':
                f.kind = 'classmethod'
            elif b in ('property', 'cached_property'):
                f.kind = 'property'
            elif b == 'setter':
                f.kind = 'setter'
            elif b in ('abstractmethod',):
                f.abstract = True
            elif b == 'cdivision':
                f.cdivision = True
        if f.kind != 'setter':
            self.funcs[qual] = f
        else:
            self.funcs[qual + '.setter'] = f
        return f

    def _memoised(self, f, m):
        """functools caches: a table of results that lives as long as the module"""
        node, a = f.node, f.node.args
        if a.vararg or a.kwarg:
            return
        tab, key, val = '%cache:' + f.qual, '%key', '%val'
        m.binds[tab] = ('expr', ast.Dict([], []), None)
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        N = lambda n, c=ast.Load: ast.Name(n, c())
        inner = ast.FunctionDef('%fn', ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                                node.body, [], node.returns)
        sub = lambda c: ast.Subscript(N(tab), N(key), c())
        body = [ast.Assign([N(key, ast.Store)], ast.Tuple([N(p) for p in ps], ast.Load())),
                ast.If(ast.Compare(N(key), [ast.In()], [N(tab)]), [ast.Return(sub(ast.Load))], []),
                inner,
                ast.Assign([N(val, ast.Store)], ast.Call(N('%fn'), [N(p) for p in ps], [])),
                ast.Assign([sub(ast.Store)], N(val)),
                ast.Return(N(val))]
        for s in body:
            ast.copy_location(s, node)
            for x in ast.walk(s):
                if not hasattr(x, 'lineno'):
                    x.lineno, x.col_offset = node.lineno, 0
        node.body = body

    def _mkclass(self, node, m):
        c = Class(node.name, m.name + '.' + node.name, node, m)
        node.body = strip_doc(node.body)
        for d in node.decorator_list:
            if self._deco_name(d).split('.')[-1] == 'dataclass':
                c.is_dataclass = True
                c.dc_order = isinstance(d, ast.Call) and any(k.arg == 'order' and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self._mkfunc(s, m, c)
                if f.kind == 'setter':
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                a = s.annotation
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.startswith('c:'):
                    c.ctypes[s.target.id] = a.value[2:]
                else:
                    c.annots[s.target.id] = a
                if c.is_dataclass:
                    c.dc_fields.append((s.target.id, s.value))
                elif s.value is not None:
                    c.attrs[s.target.id] = s.value
        self.classes[c.qual] = c
        return c

    def _resolve_class(self, c):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.resolve(c.module, b)
            if r is None:
                continue
            if r[0] == 'class':
                c.bases.append(r[1])
            elif r[0] == 'ext':
                if r[1].startswith('typing.') or r[1] in ('abc.ABC', 'builtins.object'):
                    continue
                c.bases.append(r[1])
                if r[1] in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag'):
                    c.is_enum = True
                    c.is_intenum = r[1] in ('enum.IntEnum', 'enum.IntFlag')
        if any(isinstance(b, Class) and b.is_enum for b in c.bases):
            c.is_enum = True
            c.is_intenum = any(b.is_intenum for b in c.bases if isinstance(b, Class))
        if c.is_enum:
            for k, v in c.attrs.items():
                if isinstance(v, ast.Constant):
                    c.members[k] = v.value
                elif isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                    c.members[k] = -v.operand.value
                else:
                    try:
                        c.members[k] = eval(compile(ast.Expression(v), '<enum>', 'eval'), {'__builtins__': {}})
                    except Exception:
                        pass

    # -- resolution
    def resolve_import(self, mod, attr):
        if attr is None:
            if mod in self.modules:
                return ('module', mod)
            return ('ext', mod)
        if mod in self.modules:
            m = self.modules[mod]
            if attr in m.binds:
                return self.resolve_bind(m, attr)
            if mod + '.' + attr in self.modules:
                return ('module', mod + '.' + attr)
            return None
        return ('ext', mod + '.' + attr)

    def resolve_bind(self, m, name, depth=0):
        b = m.binds.get(name)
        if b is None or depth > 20:
            return None
        if b[0] == 'import':
            mod = b[1][2:] if b[1].startswith('c:') else b[1]
            return self.resolve_import(mod, b[2])
        if b[0] == 'expr':
            return ('expr', b[1], b[2], m, name)
        return b

    def resolve(self, m, node):
        """static resolution of a Name/Attribute expression"""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve(m, ast.parse(node.value, mode='eval').body)
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            if node.id in m.binds:
                return self.resolve_bind(m, node.id)
            if node.id in BUILTIN_NAMES:
                return ('ext', 'builtins.' + node.id)
            return None
        if isinstance(node, ast.Attribute):
            r = self.resolve(m, node.value)
            if r is None:
                return None
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + node.attr)
            if r[0] == 'module':
                return self.resolve_import(r[1], node.attr)
            return None
        return None

    # -- annotations to types
    def concrete(self, c):
        """concrete classes at or below c"""
        out = set()
        for k in self.classes.values():
            if c in k.mro() and not k.abstract_methods():
                out.add(k.qual)
        return out

    def ann_type(self, m, node):
        if node is None:
            return ANY
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ('none',)
            if isinstance(node.value, str):
                if node.value.startswith('c:'):
                    return ctype_type(node.value[2:])
                try:
                    return self.ann_type(m, ast.parse(node.value, mode='eval').body)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return join_ty(self.ann_type(m, node.left), self.ann_type(m, node.right))
        if isinstance(node, ast.Subscript):
            r = self.resolve(m, node.value)
            nm = (r[1] if r and r[0] == 'ext' else '').split('.')[-1].lower()
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if nm == 'optional':
                x = self.ann_type(m, args[0])
                return x if x[0] == 'opt' else ('opt', x)
            if nm == 'union':
                r = None
                for a in args:
                    t = self.ann_type(m, a)
                    r = t if r is None else join_ty(r, t)
                return r
            if nm in ('list', 'sequence', 'iterable', 'iterator', 'collection'):
                return ('list', self.ann_type(m, args[0]))
            if nm == 'set' or nm == 'frozenset':
                return ('set', self.ann_type(m, args[0]))
            if nm in ('dict', 'mapping'):
                return ('dict', self.ann_type(m, args[0]), self.ann_type(m, args[1]) if len(args) > 1 else ANY)
            if nm == 'tuple':
                return ('tuple',) + tuple(self.ann_type(m, a) for a in args if not (isinstance(a, ast.Constant) and a.value is ...))
            return ANY
        r = self.resolve(m, node)
        if r is None:
            return ANY
        if r[0] == 'class':
            c = r[1]
            if c.is_intenum:
                return INT
            return ('cls', frozenset(self.concrete(c) or {c.qual}))
        if r[0] == 'ext':
            nm = r[1]
            b = nm.split('.')[-1]
            if nm in ('numpy.ndarray', 'numpy.array'):
                return ND
            if b in ('BinaryIO', 'TextIO', 'IO', 'BufferedReader', 'BufferedWriter'):
                return FILE
            return {'int': INT, 'str': STR, 'bool': BOOL, 'float': FLOAT, 'bytes': BYTES, 'list': ('list', ANY), 'List': ('list', ANY),
                    'dict': ('dict', ANY, ANY), 'Dict': ('dict', ANY, ANY), 'set': ('set', ANY), 'Set': ('set', ANY), 'tuple': ('tuple',)}.get(b, ANY)
        return ANY

    def _load_pxd(self):
        """C constants: FNV initial values and typedef widths, from the C headers"""
        self.ctypedefs = {'Fnv64_t': 'uint64', 'Fnv32_t': 'uint32'}

    # -- anchors
    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            # follow re-exports
            mod, _, name = qual.rpartition('.')
            if mod in self.modules:
                r = self.resolve_bind(self.modules[mod], name)
                if r and r[0] == 'func':
                    return r[1]
            raise AnalysisBroken('anchor %s is missing' % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            mod, _, name = qual.rpartition('.')
            if mod in self.modules:
                r = self.resolve_bind(self.modules[mod], name)
                if r and r[0] == 'class':
                    return r[1]
            raise AnalysisBroken('anchor %s is missing' % qual)
        return c

    def method(self, cqual, name):
        c = self.cls(cqual)
        f = c.find(name)
        if f is None or isinstance(f, str):
            raise AnalysisBroken('anchor %s.%s is missing' % (cqual, name))
        return f


CTY = {'uint8_t': 'uint8', 'int8_t': 'int8', 'uint16_t': 'uint16', 'int16_t': 'int16', 'uint32_t': 'uint32', 'int32_t': 'int32',
       'uint64_t': 'uint64', 'int64_t': 'int64', 'Py_ssize_t': 'int64', 'size_t': 'uint64', 'ssize_t': 'int64', 'unsigned int': 'uint32',
       'int': 'int32', 'long': 'int64', 'unsigned long': 'uint64', 'long long': 'int64', 'unsigned long long': 'uint64',
       'unsigned char': 'uint8', 'char': 'int8', 'signed char': 'int8', 'short': 'int16', 'unsigned short': 'uint16', 'Fnv64_t': 'uint64',
       'Fnv32_t': 'uint32', 'Py_UCS4': 'uint32', 'bint': 'int32', 'double': 'double', 'float': 'float'}


def ctype_type(name):
    if name in CTY:
        return INT if CTY[name] in CT else FLOAT
    return {'str': STR, 'unicode': STR, 'bytes': BYTES, 'list': ('list', ANY), 'dict': ('dict', ANY, ANY), 'set': ('set', ANY),
            'tuple': ('tuple',), 'bytearray': BYTES, 'uint8_t*': BYTES, 'unsigned char*': BYTES, 'char*': BYTES,
            'const unsigned char*': BYTES}.get(name, ANY)
