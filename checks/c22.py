"""C22: every read of a quantized storage reconstructs the same rows."""
from .c10 import *
from ffsa.models import dtype_of

RULES = {
    'value': 'component (i, j) of a read is the centroid component selected by code i, projected and scaled by norm i',
    'shape': 'shape, length and the dimensions of a read match the number of rows and the reconstructed length',
    'slice': 'slicing selects codes and norms alike, for every start, stop and step',
    'buffer': 'a buffer passed as out holds the returned values and is what is returned',
    'accepts': 'no read of existing rows fails',
    'type': 'reads give 32-bit floats',
    'owner': 'reads do not modify the storage (same read again gives the same values)',
}
TECHNIQUE = 'value numbering of every access path against a component-wise reference reconstruction'
j_, ia, ib, istep = sym('col', INT), sym('start', ('opt', INT)), sym('stop', ('opt', INT)), sym('step', ('opt', INT))
p_ = sym('pos', INT)
IX = sym('index_list', ('list', INT))
RNG[j_] = RNG[p_] = (0, 2**20)
N = sym('n_rows', INT)


def pre(e):
    r = random.Random('pq|%d' % e.seed)
    n = r.choice((1, 2, 3, 4, 5))
    ql, sl, nc = r.choice((1, 2, 3)), r.choice((1, 2)), r.choice((1, 2, 4))
    for k, v in (('n_rows', n), ('quantized_len', ql), ('sub_len', sl), ('n_centroids', nc)):
        e.vals[sym(k, INT)] = v
    e.vals[i_] = r.randrange(n) if r.random() < .85 else -r.randint(1, n)
    e.vals[j_] = r.randrange(ql * sl)
    m = r.choice((1, 2, 3, n))
    e.vals[IX] = tuple(r.randrange(n) if r.random() < .9 else -r.randint(1, n) for _ in range(m))
    e.vals[p_] = r.randrange(m)
    for s, c in ((ia, (None, 0, 1, n // 2, -1, -2)), (ib, (None, n, n - 1, -1, 2, n + 3))):
        e.vals[s] = r.choice(c)
    e.vals[istep] = r.choice((None, None, 1, 2, -1, 3))


def qspec(W, fn, *args):
    q = with_spec(W.prog, 'quantized')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


def cmp(R, rule, what, loc, got, want, A, why):
    ok(R, rule, what, loc, got, want, A, pre, why, 60)


def accepts(R, W, r, n0, A, what, loc):
    """the read does not fail for rows that exist"""
    bad = TRUE if W.st.dead else FALSE
    for x in r.raises:
        bad = or_(bad, and_(*[l for l, _ in x.st.pc[n0:]]))
    cmp(R, 'accepts', what, loc, bad, FALSE, A, 'the read fails')


def run(R, P):
    k = 'QuantizedArray'
    for pj in (None, 'yes'):
        for nm in (None, 'yes'):
            tag = '%s, %s' % ('projection' if pj else 'no projection', 'norms' if nm else 'no norms')

            def fresh():
                W = World(P)
                q = W.quantized(pj, nm)
                syms = {s.a[0]: s for s in W.I.shapes if s.op == 'sym'}
                return W, q, syms['codes'], syms['subquantizers'], syms.get('projection', NONE), syms.get('qnorms', NONE)

            def val(W, s, i):
                return qspec(W, 'value', s[0], s[1], s[2], s[3], i, j_)
            rl = mul(sym('quantized_len', INT), sym('sub_len', INT))
            # shape
            with R.group('shape', tag):
                W, q, *s = fresh()
                loc = methloc(P, k, 'shape')
                shp = W.attr(q, 'shape')
                cmp(R, 'shape', '%s: shape' % tag, loc, shp, tup(N, rl), W.pc(), 'reported shape')
                r = W.call(q, '__len__')
                cmp(R, 'shape', '%s: len' % tag, loc, W.content(r.val), N, W.pc(), 'length')
                R.analysed(W)
            reads = [
                ('q[i]', '__getitem__', (i_,), (), i_),
                ('q.embedding(i)', 'embedding', (i_,), (), i_),
                ('q[list]', '__getitem__', (IX,), (p_,), item(IX, p_)),
                ('q.embedding(list)', 'embedding', (IX,), (p_,), item(IX, p_)),
                ('q[array]', '__getitem__', (mk('asarray', IX),), (p_,), item(IX, p_)),
                ('asarray(q)', '__array__', (), (i_,), i_),
                ('asarray(q, dtype)', '__array__', (mk('dtype', '=f4'),), (i_,), i_),
                ('iteration', '__iter__', (), (i_,), i_),
                ('q.embedding(slice)', 'embedding', (mk('slice', ia, ib, istep),), (p_,), 'slice'),
            ]
            for name, m, args, path, idx in reads:
                what = '%s: %s' % (tag, name)
                loc = methloc(P, k, m)
                with R.group('value', what):
                    W, q, *s = fresh()
                    if idx == 'slice':
                        sel = qspec(W, 'rows_of', N, ia, ib, istep)
                        cond = [lt(p_, len_(sel))]
                        row = item(sel, p_)
                    else:
                        row, cond = idx, []
                    if name == 'iteration':
                        cond = cond + [le(ZERO, i_)]
                    want = val(W, s, row)
                    base = W.pc()
                    n0 = len(W.st.pc)
                    r = W.call(q, m, *args)
                    R.analysed(W)
                    accepts(R, W, r, n0, base + cond, what, loc)
                    if W.st.dead:
                        continue
                    if name != 'iteration':
                        d = dtype_of(W.I.dtype_term(W.content(r.val)))
                        R.expect(None if d is None else d[-2:] == 'f4', 'type', what, loc, 'elements of type %s' % d)
                    got = W.content(r.val)
                    A = W.pc() + cond
                    x = got
                    for y in path:
                        x = item(x, y)
                    cmp(R, 'value', what, loc, item(x, j_), want, A, 'component (row, col)')
                    if name != 'iteration':
                        shp = tup(rl) if not path else tup(len_(IX) if path == (p_,) and idx != 'slice' else len_(sel) if idx == 'slice' else N, rl)
                        cmp(R, 'shape', what, loc, mk('attr', got, 'shape'), shp, A, 'dimensions of the result')
                    else:
                        cmp(R, 'shape', what, loc, len_(got), N, W.pc(), 'number of rows iterated')
                    own(R, W, s, A, what, loc)
            for name, args, path, idx, shp in (('q.embedding(i, out)', i_, (), i_, (rl,)), ('q.embedding(list, out)', IX, (p_,), item(IX, p_), (len_(IX), rl))):
                what = '%s: %s' % (tag, name)
                loc = methloc(P, k, 'embedding')
                with R.group('buffer', what):
                    W, q, *s = fresh()
                    out = W.array('out', shp)
                    want = val(W, s, idx)
                    r = W.call(q, 'embedding', args, out)
                    R.analysed(W)
                    for nm_, t in (('returned', W.content(r.val)), ('buffer', W.content(out))):
                        x = t
                        for y in path:
                            x = item(x, y)
                        cmp(R, 'buffer', '%s: %s' % (what, nm_), loc, item(x, j_), want, W.pc(), 'component (row, col)')
                    own(R, W, s, W.pc(), what, loc)
            for name, m in (('q[slice]', '__getitem__'),):
                what = '%s: %s' % (tag, name)
                loc = methloc(P, k, m)
                with R.group('slice', what):
                    W, q, *s = fresh()
                    sel = qspec(W, 'rows_of', N, ia, ib, istep)
                    want = val(W, s, item(sel, p_))
                    base = W.pc()
                    n0 = len(W.st.pc)
                    r = W.call(q, '__getitem__', mk('slice', ia, ib, istep))
                    accepts(R, W, r, n0, base, what, loc)
                    if W.st.dead:
                        continue
                    q2 = r.val
                    n2 = W.content(W.call(q2, '__len__').val)
                    shp = W.content(W.attr(q2, 'shape'))
                    R.analysed(W)
                    A = W.pc()
                    cmp(R, 'slice', '%s: rows' % what, loc, n2, len_(sel), A, 'number of rows')
                    cmp(R, 'slice', '%s: shape' % what, loc, shp, tup(len_(sel), rl), A, 'shape of the slice')
                    for n3, m3, a3, pth in (('item', '__getitem__', (p_,), ()), ('array', '__array__', (), (p_,))):
                        r = W.call(q2, m3, *a3)
                        x = W.content(r.val)
                        for y in pth:
                            x = item(x, y)
                        cmp(R, 'slice', '%s: %s' % (what, n3), loc, item(x, j_), want, W.pc() + [lt(p_, len_(sel))], 'component (row, col) of the slice')


def own(R, W, s, A, what, loc):
    bad = [x for x in s if x is not NONE and W.content(x) is not x]
    v = True
    for x in bad:
        y = equal(W.content(x), x, A, pre=pre, want=30)
        if y is not True:
            v = y
            break
    R.expect(v, 'owner', what, loc, '%s is modified by a read' % (bad[0].a[0] if bad else ''))
