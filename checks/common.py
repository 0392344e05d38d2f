"""Shared pieces of the property checks."""
import ast
import os
from ffsa.terms import *
from ffsa.terms import _closure as closure
from ffsa.entry import *
from ffsa.layout import *
from ffsa.equiv import equal, implied, differ, opaque_terms

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')


def with_spec(P, name):
    q = 'spec_' + name
    if q not in P.modules:
        P.add_module(q, os.path.join(SPEC, name + '.py'))
    return q


def fnloc(P, qual):
    f = P.funcs.get(qual)
    if f is None:
        return (qual, 0, qual)
    return (f.file, f.node.lineno, f.qual)


def methloc(P, cname, m):
    f = P.method(Q.get(cname, cname), m)
    return (f.file, f.node.lineno, f.qual)


def link(a, b):
    """share shape/dtype knowledge about symbols between sessions"""
    b.I.shapes.update(a.I.shapes)
    b.I.dtypes.update(a.I.dtypes)


HDR = 12


def header_read(f):
    return Item('read', C(HDR), None, val=mk('rdb', f, C(-1), (), C(HDR)))


def align(R, witems, rfile, ritems, start, rpos, extra, skip_header=True):
    """align reader items with writer items; returns (aligner, cases)"""
    al = Aligner(R.I, witems, rfile, add(start, C(HDR)) if skip_header else start, rpos, extra)
    pre = []
    if skip_header:
        if ritems and ritems[0].k == 'seek' and ritems[0].ev.d['whence'] is ONE and ritems[0].ev.d['off'] is C(-HDR):
            ritems = ritems[1:]
        else:
            pre = [header_read(rfile)]
    return al, al.run(pre + list(ritems))


class Written:
    """a component and the bytes its write_chunk emits"""

    def __init__(self, P, kind, byteorder='little', **kw):
        self.kind = kind
        self.W = World(P, byteorder=byteorder)
        self.obj = getattr(self, '_mk_' + kind, lambda: self.W.component(kind))() if not kw else self.W.storage(kind, None, **kw)
        self.f = file_sym('out')
        self.r = self.W.call(self.obj, 'write_chunk', self.f)
        self.items = writer_items(self.r.trace, self.f, self.W.st.pc)
        self.snap = self.W.snap(self.obj)
        self.pos = pos_sym('out')


class Loaded:
    def __init__(self, P, kind, method='read_chunk', share=None, byteorder='little'):
        self.R = World(P, byteorder=byteorder)
        if share is not None:
            link(share.W, self.R)
        self.f = file_sym('inp')
        self.r = self.R.static(kind, method, self.f)
        self.items = reader_items(self.r.trace, self.f, ())
        self.val = self.R.content(self.r.val)
        self.pos = pos_sym('inp')
        self.dead = self.R.st.dead


def obj_fields(t):
    """named parts of a snapshot for field-wise comparison"""
    t = strip_views(t)
    if t.op == 'obj':
        return t.a[0], {k: v for k, v in t.a[1]}
    return None, {'': t}


def compare_objects(rep, rule, what, loc, got, want, A):
    gq, gf = obj_fields(got)
    wq, wf = obj_fields(want)
    if gq != wq:
        rep.expect(None if 'top' in str(got) else False, rule, what, loc, 'restored as %s, was %s' % (gq, wq))
        return
    for k in sorted(set(gf) | set(wf)):
        x, y = gf.get(k), wf.get(k)
        if x is None or y is None:
            rep.expect(None, rule, '%s.%s' % (what, k), loc, 'field present on one side only')
            continue
        if x.op == 'obj' and y.op == 'obj':
            compare_objects(rep, rule, '%s.%s' % (what, k), loc, x, y, A)
            continue
        e = equal(x, y, A)
        rep.expect(e, rule, '%s.%s' % (what, k), loc, 'restored value %s differs from written value %s' % (x, y))


def short(c):
    return ' & '.join(str(a) for a in c if a.op in ('isnone', 'not') and 'None' in str(a)) or 'all'


def default_is(R, P, rule, cls, method, param, want):
    """the default of a parameter, as it stands in the signature"""
    f = P.cls(Q[cls]).find(method)
    loc = methloc(P, cls, method)
    what = '%s.%s: default of %s' % (cls, method, param)
    a = f.node.args
    ds = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    if param not in ds:
        R.expect(None, rule, what, loc, 'no default in the signature')
        return
    d = ds[param]
    R.expect(d.value == want if isinstance(d, ast.Constant) and type(d.value) is type(want) else None, rule, what, loc, 'the default is %s instead of %s' % (ast.unparse(d), want))
