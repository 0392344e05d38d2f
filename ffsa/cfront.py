"""C functions of the repository as Python source for the engine (clang AST; pointers become offsets)."""
import json
import os
import subprocess
import tempfile

W = {'unsigned long': 64, 'unsigned long long': 64, 'unsigned int': 32, 'unsigned short': 16, 'unsigned char': 8}
S = {'long': 64, 'long long': 64, 'int': 32, 'short': 16, 'char': 8, 'signed char': 8}


class CUnsupported(Exception):
    pass


def ast_of(repo, rel, fn):
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + fn, '-I', os.path.join(repo, 'src/fnv'), '-I', os.path.join(repo, 'src/include'),
           os.path.join(repo, rel)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CUnsupported('clang: ' + r.stderr[:200])
    dec, i, out = json.JSONDecoder(), 0, None
    s = r.stdout
    while i < len(s):
        while i < len(s) and s[i] != '{':
            i += 1
        if i >= len(s):
            break
        d, i = dec.raw_decode(s, i)
        if d.get('kind') == 'FunctionDecl' and d.get('name') == fn and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', ())):
            out = d
    if out is None:
        raise CUnsupported('no definition of ' + fn)
    return out


class Conv:
    def __init__(self):
        self.lines, self.ind, self.ptr, self.tmp = [], 1, {}, 0
        self.types = {}

    def emit(self, s):
        self.lines.append('    ' * self.ind + s)

    def ty(self, n):
        t = n.get('type', {})
        return (t.get('desugaredQualType') or t.get('qualType', '')).replace('const ', '').strip()

    def wrap(self, s, t):
        return '((%s) %% %d)' % (s, 1 << W[t]) if t in W else s

    def expr(self, n):
        k = n['kind']
        inner = n.get('inner', [])
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.expr(inner[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            s = self.expr(inner[0])
            c = n.get('castKind')
            t = self.ty(n)
            if c == 'IntegralCast':
                if t in W:
                    f = self.ty(inner[0])
                    return s if f in W and W[f] <= W[t] else self.wrap(s, t)
                f = self.ty(inner[0])
                if t in S and f in W and W[f] < S[t] or t in S and f in S and S[f] <= S[t]:
                    return s
                if inner[0]['kind'] == 'IntegerLiteral':
                    return s
                raise CUnsupported('cast to ' + t)
            return s
        if k == 'IntegerLiteral':
            return n['value']
        if k == 'DeclRefExpr':
            return n['referencedDecl']['name']
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('=',):
                self.assign(inner[0], self.expr(inner[1]))
                return self.expr(inner[0])
            a, b = self.expr(inner[0]), self.expr(inner[1])
            if op in ('+', '-', '*', '^', '|', '&', '<<', '>>', '<', '<=', '>', '>=', '==', '!='):
                if op in ('<', '<=', '>', '>=', '==', '!='):
                    return '(%s %s %s)' % (a, op, b)
                return self.wrap('(%s %s %s)' % (a, op, b), self.ty(n))
            raise CUnsupported('operator ' + op)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            r = self.expr(inner[1])
            l = self.expr(inner[0])
            self.assign(inner[0], self.wrap('(%s %s %s)' % (l, op, r), self.ty(inner[0])))
            return self.expr(inner[0])
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                x = self.expr(inner[0])
                if n.get('isPostfix'):
                    self.tmp += 1
                    t = 't%d' % self.tmp
                    self.emit('%s = %s' % (t, x))
                    self.emit('%s = %s %s 1' % (x, x, op[0]))
                    return t
                self.emit('%s = %s %s 1' % (x, x, op[0]))
                return x
            if op == '*':
                p = inner[0]
                t = self.ty(p).replace('restrict', '').strip()
                if t not in ('unsigned char *', 'uint8_t *'):
                    raise CUnsupported('dereference of ' + t)
                return 'buf[%s]' % self.expr(p)
        if k == 'ArraySubscriptExpr':
            if self.ty(inner[0]).strip() not in ('unsigned char *',):
                raise CUnsupported('subscript')
            return 'buf[%s + %s]' % (self.expr(inner[0]), self.expr(inner[1]))
        raise CUnsupported(k)

    def assign(self, l, s):
        while l['kind'] == 'ParenExpr':
            l = l['inner'][0]
        if l['kind'] != 'DeclRefExpr':
            raise CUnsupported('assignment to ' + l['kind'])
        self.emit('%s = %s' % (l['referencedDecl']['name'], s))

    def stmt(self, n):
        k = n['kind']
        inner = n.get('inner', [])
        if k == 'CompoundStmt':
            for x in inner:
                self.stmt(x)
        elif k == 'DeclStmt':
            for v in inner:
                if v['kind'] != 'VarDecl' or not v.get('inner'):
                    if v['kind'] == 'VarDecl':
                        continue
                    raise CUnsupported('declaration')
                self.emit('%s = %s' % (v['name'], self.expr(v['inner'][0])))
        elif k == 'WhileStmt':
            self.emit('while %s:' % self.pure(inner[0]))
            self.block(inner[1])
        elif k == 'ForStmt':
            init, _, cond, inc, body = (inner + [{}] * 5)[:5]
            if init.get('kind'):
                self.stmt(init)
            self.emit('while %s:' % (self.pure(cond) if cond.get('kind') else 'True'))
            self.ind += 1
            self.stmt(body)
            if inc.get('kind'):
                self.stmt(inc)
            self.ind -= 1
        elif k == 'IfStmt':
            self.emit('if %s:' % self.pure(inner[0]))
            self.block(inner[1])
            if len(inner) > 2:
                self.emit('else:')
                self.block(inner[2])
        elif k == 'ReturnStmt':
            self.emit('return %s' % self.expr(inner[0]))
        elif k in ('NullStmt',):
            pass
        else:
            m = len(self.lines)
            s = self.expr(n)
            if m == len(self.lines):
                self.emit(s)

    def pure(self, n):
        m = len(self.lines)
        s = self.expr(n)
        if len(self.lines) != m:
            raise CUnsupported('side effect in a condition')
        return s

    def block(self, n):
        self.ind += 1
        m = len(self.lines)
        self.stmt(n)
        if len(self.lines) == m:
            self.emit('pass')
        self.ind -= 1


def python_of(repo, rel, fn):
    """Python source of a C function(void *buf, size_t len, T hval)"""
    d = ast_of(repo, rel, fn)
    ps = [x for x in d['inner'] if x['kind'] == 'ParmVarDecl']
    body = [x for x in d['inner'] if x['kind'] == 'CompoundStmt'][0]
    c = Conv()
    bufname = ps[0]['name']
    c.stmt(body)
    names = [p['name'] for p in ps]
    src = 'def %s(buf: bytes, %s: int, %s: int):\n    %s = 0\n' % (fn, names[1], names[2], bufname if bufname != 'buf' else 'buf_')
    text = '\n'.join(c.lines)
    if bufname == 'buf':
        # the pointer itself is offset zero; dereferences index the buffer
        import re
        text = re.sub(r'\bbuf\b(?!\[)', 'buf_', text)
    return src + text + '\n'


def load(P, repo, rel, fn):
    q = 'c_' + fn
    if q not in P.modules:
        src = python_of(repo, rel, fn)
        f = tempfile.NamedTemporaryFile('w', suffix='.py', delete=False)
        try:
            f.write(src)
            f.close()
            P.add_module(q, f.name)
        finally:
            os.unlink(f.name)
    return q + '.' + fn
