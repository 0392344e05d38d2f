"""C07: memory-mapped and eager loading agree."""
from .common import *

RULES = {
    'align': 'the mapped loader consumes the same fields as the writer emitted (the mapped region included) and restores each part',
    'agree': 'the storage restored by mapping equals the storage restored eagerly, field by field (shape, element type, order, values)',
    'position': 'both loaders leave the file at the end of the written chunk',
    'readonly': 'the file is mapped read-only',
    'switch': 'every loading function takes the mapped reader exactly when its mmap argument is true, and the argument is off unless given',
}
TECHNIQUE = 'writer/reader alignment of the mapped readers, flag dataflow'


def modes(R, trace, tag):
    n = 0
    for e in walk_events(trace):
        if e.kind == 'memmap':
            n += 1
            m = e.d['mode']
            o = e.d.get('order', C('C'))
            R.expect(True if o is C('C') else False if o.op == 'c' else None, 'agree', tag + ' element order', e.loc, 'order %s' % o)
            R.expect(True if m is C('r') else False if m.op == 'c' else None, 'readonly', tag, e.loc, 'mode %s' % m)
    return n


def run(R, P):
    for kind in ('NdArray', 'QuantizedArray'):
        with R.group('align', kind):
            w = Written(P, kind)
            res = {}
            for m in ('read_chunk', 'mmap_chunk'):
                l = Loaded(P, kind, m, share=w)
                R.analysed(w.W, l.R)
                loc = methloc(P, kind, m)
                if l.dead:
                    R.bad('align', '%s.%s' % (kind, m), loc, 'the loader always fails')
                    continue
                try:
                    al, cases = align(l.R, w.items, l.f, l.items, w.pos, l.pos, w.W.pc())
                except Mis as x:
                    R.bad('align', '%s.%s' % (kind, m), x.rloc or x.wloc or loc, '%s (written at %s, read at %s)' % (x.msg, x.wloc, x.rloc))
                    continue
                for c in cases:
                    R.ok('align', '%s.%s [%s]' % (kind, m, short(c.A)), loc)
                    compare_objects(R, 'align', '%s.%s [%s]' % (kind, m, short(c.A)), loc, al.resolve(l.val, c), al.under(w.snap, c), c.A)
                    end = al.resolve(l.R.st.fpos.get(l.f, l.pos), c)
                    res.setdefault(short(c.A), {})[m] = (al.resolve(l.val, c), end, c.A, l)
                if m == 'mmap_chunk':
                    if not modes(R, l.r.trace, '%s.%s' % (kind, m)):
                        R.und('readonly', kind, loc, 'no mapping found')
            for k, d in res.items():
                if len(d) == 2:
                    (v1, e1, A, l1), (v2, e2, _, l2) = d['read_chunk'], d['mmap_chunk']
                    loc = methloc(P, kind, 'mmap_chunk')
                    R.expect(equal(e1, e2, A), 'position', '%s [%s]' % (kind, k), loc, 'eager loading ends at %s, mapping at %s' % (e1, e2))
                    t1, t2 = dtypes_of(l1, l1.val), dtypes_of(l2, l2.val)
                    for f in sorted(set(t1) & set(t2)):
                        R.expect(None if t1[f] is None or t2[f] is None else t1[f] == t2[f], 'agree', '%s.%s element type' % (kind, f), loc, '%s vs %s' % (t1[f], t2[f]))
    path = sym('path', STR)
    for kind in ('NdArray', 'QuantizedArray'):
        switch(R, P, kind + '.load', lambda W, *b: W.static(kind, 'load', file_sym('inp'), *b), methloc(P, kind, 'load'))
    for q in ('storage.load_storage', 'storage.ndarray.load_ndarray', 'storage.quantized.load_quantized_array', 'embeddings.load_finalfusion'):
        switch(R, P, q, lambda W, *b: W.func(q, path, *b), fnloc(P, PKG + q))


def native(d):
    """dtype code on a little-endian host"""
    return None if d is None or d.op != 'dtype' else d.a[0].replace('=', '<') if d.a[0][1:] not in ('u1', 'i1') else '|' + d.a[0][1:]


def dtypes_of(l, v):
    """element type of every array part of a storage"""
    out = {}

    def go(pre, t):
        q, f = obj_fields(t)
        for k, x in f.items():
            if x.op == 'obj':
                go(pre + k + '.', x)
                continue
            x = strip_views(x)
            for c in cases_of(x):
                if c is not NONE:
                    d = native(l.R.I.dtype_term(c))
                    if d or c.op in ('ard', 'memmap', 'reshape', 'astype'):
                        out[pre + k] = d
    go('', v)
    return out


def cases_of(t):
    if t.op == 'ite':
        return cases_of(t.a[1]) + cases_of(t.a[2])
    return [t]


def storages(W, v):
    """the storage values a loader can return"""
    out = []
    for c in cases_of(strip_views(v)):
        if c.op == 'obj' and c.a[0] == Q['Embeddings']:
            for k, x in c.a[1]:
                if any(y.op in ('memmap', 'ard') for y in closure(x)) and k == '_storage':
                    out += storages(W, x)
        else:
            out.append(c)
    return out


def switch(R, P, tag, call, loc):
    for b in (True, False, None):
        what = '%s(mmap=%s)' % (tag, b) if b is not None else '%s()' % tag
        with R.group('switch', what):
            W = World(P)
            r = call(W, *([] if b is None else [C(b)]))
            R.analysed(W)
            ss = storages(W, W.content(r.val))
            maps = [e for e in walk_events(r.trace) if e.kind == 'memmap']
            if not b:
                R.expect(not maps, 'switch', what, maps[0].loc if maps else loc, 'the file is mapped although mmap is off')
                continue
            if not ss:
                R.und('switch', what, loc, 'no storage found in the result')
            for s in ss:
                ops = {y.op for y in closure(s)}
                kind = s.a[0].split('.')[-1] if s.op == 'obj' else 'array'
                R.expect(True if 'memmap' in ops else False if 'ard' in ops and not ops & {'top', 'call'} else None, 'switch', '%s %s' % (what, kind), loc, 'the storage is read eagerly although mmap is on')
            modes(R, r.trace, tag)
