"""Ownership of file handles: every opening expression must be released on all paths.

An opening expression is a call of open(), a known library opener, or a function of the
package that hands an open file to its caller.  The handle is released if the
expression is a `with` item (possibly through closing(), a wrapper or an exit stack), or
if it is bound to a name that is entered by `with`, closed by a finally clause, or closed
with nothing in between that can raise.  Handing the handle on moves the obligation to
the caller; anything the rules do not cover is undecided, never a violation.
"""
import ast

OPENERS = {'builtins.open', 'open', 'io.open', 'io.FileIO', 'gzip.open', 'gzip.GzipFile', 'bz2.open', 'bz2.BZ2File', 'lzma.open', 'codecs.open', 'os.fdopen', 'tempfile.TemporaryFile',
           'tempfile.NamedTemporaryFile', 'zipfile.ZipFile', 'tarfile.open', 'mmap.mmap'}
WRAP = {'io.TextIOWrapper', 'io.BufferedReader', 'io.BufferedWriter', 'contextlib.closing', 'gzip.GzipFile', 'codecs.getreader', 'iter', 'builtins.iter'}


class Site:
    def __init__(self, mod, fn, node, verdict, why):
        self.mod, self.fn, self.node, self.verdict, self.why = mod, fn, node, verdict, why

    @property
    def loc(self):
        return (self.mod.rel, self.node.lineno, self.fn)


class Handles:
    def __init__(self, prog):
        self.P = prog
        self.openers = set()        # functions that return an open file
        self.sites = []
        for _ in range(5):
            n = len(self.openers)
            self.sites = []
            for m in prog.modules.values():
                if m.name.startswith('finalfusion'):
                    self.module(m)
            if len(self.openers) == n:
                break

    # -- structure
    def module(self, m):
        self.m = m
        self.parent = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and self.opens(n):
                v, why = self.owner(n)
                self.sites.append(Site(m, self.qual(n), n, v, why))

    def qual(self, n):
        names = []
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(n.name)
        return '.'.join([self.m.name] + names[::-1])

    def func(self, n):
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                return n
        return None

    def name_of(self, f):
        """dotted name of a callee"""
        if isinstance(f, ast.Name):
            try:
                r = self.P.resolve(self.m, f)
            except Exception:        # noqa
                r = None
            if r is None:
                return f.id
            if r[0] == 'ext':
                return r[1]
            return getattr(r[1], 'qual', f.id)
        if isinstance(f, ast.Attribute):
            try:
                r = self.P.resolve(self.m, f)
            except Exception:        # noqa
                r = None
            if r is not None and r[0] == 'ext':
                return r[1]
            if r is not None and hasattr(r[1], 'qual'):
                return r[1].qual
            return '?.' + f.attr
        return '?'

    def opens(self, c):
        n = self.name_of(c.func)
        if n in OPENERS or n in self.openers:
            return True
        if n == '?.open':        # pathlib
            return True
        if isinstance(c.func, ast.Attribute) and any(q.split('.')[-1] == c.func.attr for q in self.openers) and n.startswith('?.'):
            return True
        return False

    # -- ownership
    def owner(self, n):
        p = self.parent.get(n)
        while isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr)) and not (isinstance(p, ast.IfExp) and p.test is n):
            if isinstance(p, ast.NamedExpr):
                return None, 'bound inside an expression'
            n, p = p, self.parent.get(p)
        if isinstance(p, ast.withitem):
            return True, 'with'
        if isinstance(p, ast.Return):
            f = self.func(n)
            return self.handed(f, n)
        if isinstance(p, ast.Lambda):
            return None, 'returned by a lambda'
        if isinstance(p, (ast.Yield, ast.YieldFrom, ast.Await)):
            return None, 'yielded'
        if isinstance(p, (ast.keyword, ast.Starred)):
            p2 = self.parent.get(p)
            return self.argument(n, p2)
        if isinstance(p, ast.Call) and n is not p.func:
            return self.argument(n, p)
        if isinstance(p, ast.Attribute):
            if p.attr == 'close':
                return True, 'closed at once'
            if p.attr in ('detach', 'fileno', '__enter__'):
                return None, p.attr
            return False, 'only used through .%s and never closed' % p.attr
        if isinstance(p, (ast.For, ast.AsyncFor, ast.comprehension)) and getattr(p, 'iter', None) is n:
            return False, 'iterated over and never closed'
        if isinstance(p, ast.Expr):
            return False, 'never closed'
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if len(ts) == 1 and isinstance(ts[0], ast.Name):
                return self.variable(ts[0].id, p)
            return None, 'stored'
        return None, 'used in %s' % type(p).__name__

    def handed(self, f, n):
        if f is None or isinstance(f, ast.Lambda):
            return None, 'returned'
        self.openers.add(self.qual(n))
        return True, 'handed to the caller'

    def argument(self, n, call):
        f = call.func
        if isinstance(f, ast.Attribute) and f.attr in ('enter_context', 'push', 'enter_async_context'):
            return True, 'exit stack'
        nm = self.name_of(f)
        if nm in WRAP or isinstance(f, ast.Name) and f.id in ('TextIOWrapper', 'closing', 'BufferedReader'):
            return self.owner(call)
        if nm in self.P.funcs or nm in self.P.classes or nm.startswith('?'):
            return None, 'passed to %s' % nm
        return False, 'passed to %s and never closed' % nm

    # -- handles in variables
    def block_of(self, s):
        p = self.parent[s]
        for fld in ('body', 'orelse', 'finalbody', 'handlers'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and s in b:
                return p, b
        return p, None

    def variable(self, v, s):
        dirty = None
        cur = s
        while True:
            p, b = self.block_of(cur)
            if b is None:
                return None, 'unknown block'
            if isinstance(p, ast.Try) and b is p.body and self.closes(v, p.finalbody):
                return True, 'finally'
            for t in b[b.index(cur) + 1:]:
                r = self.step(v, t, dirty)
                if isinstance(r, tuple):
                    return r
                if r and dirty is None:
                    dirty = r
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return False, '%s is never closed' % v
            if isinstance(p, ast.Module):
                return None, 'module level'
            if isinstance(p, (ast.For, ast.While, ast.AsyncFor, ast.ExceptHandler)):
                return None, 'opened in a loop or handler'
            if isinstance(p, ast.Try) and b is p.body and p.handlers:
                return None, 'opened under a handler'
            cur = p
            if not isinstance(cur, ast.stmt):
                return None, 'unknown block'

    def mentions(self, v, t):
        return any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(t))

    def is_close(self, v, t):
        return isinstance(t, ast.Expr) and isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Attribute) and t.value.func.attr == 'close' \
            and isinstance(t.value.func.value, ast.Name) and t.value.func.value.id == v

    def closes(self, v, body):
        return any(self.is_close(v, x) for t in body for x in ast.walk(t) if isinstance(x, ast.Expr))

    def may_raise(self, t):
        for x in ast.walk(t):
            if isinstance(x, (ast.Call, ast.Subscript, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Yield, ast.YieldFrom, ast.Await)):
                return x
        return None

    def step(self, v, t, dirty):
        """verdict tuple, or the construct that may raise, or None"""
        if isinstance(t, (ast.With, ast.AsyncWith)):
            before = None
            for it in t.items:
                e = it.context_expr
                if isinstance(e, ast.Name) and e.id == v or isinstance(e, ast.Call) and any(isinstance(a, ast.Name) and a.id == v for a in e.args):
                    d = dirty or before
                    return (True, 'with') if d is None else (False, '%s is not closed if line %d raises' % (v, d.lineno))
                before = before or self.may_raise(e)
        if isinstance(t, ast.Try) and self.closes(v, t.finalbody):
            return (True, 'finally') if dirty is None else (False, '%s is not closed if line %d raises' % (v, dirty.lineno))
        if self.is_close(v, t):
            return (True, 'closed') if dirty is None else (False, '%s is not closed if line %d raises' % (v, dirty.lineno))
        if isinstance(t, ast.Return):
            if t.value is not None and isinstance(t.value, ast.Name) and t.value.id == v:
                if dirty is not None:
                    return (False, '%s is not closed if line %d raises' % (v, dirty.lineno))
                return self.handed(self.func(t), t)
            if t.value is not None and self.mentions(v, t.value):
                return (False, '%s is not closed on return' % v) if isinstance(t.value, ast.Call) and self.only_uses(v, t.value) else (None, 'returned as part of a value')
            return (False, '%s is not closed on return' % v)
        if isinstance(t, ast.Raise):
            return (False, '%s is not closed when raising' % v)
        if isinstance(t, (ast.Assign, ast.AnnAssign)) and t.value is not None and isinstance(t.value, ast.Name) and t.value.id == v:
            return (None, 'aliased')
        for x in ast.walk(t):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('enter_context', 'callback', 'push') and self.mentions(v, x):
                return (True, 'exit stack') if dirty is None else (False, '%s is not closed if line %d raises' % (v, dirty.lineno))
            if self.is_close(v, x):
                return (None, 'closed inside a compound statement')
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return (None, 'generator')
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and self.mentions(v, t):
                return (None, 'stored')
        return self.may_raise(t)

    def only_uses(self, v, call):
        """the value is computed from the handle by library readers, the handle does not escape"""
        return self.name_of(call.func).split('.')[0] in ('numpy', '?', 'toml', 'struct')
