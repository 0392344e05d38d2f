"""C03: conformance of writers and readers to the published layout (reference in spec/format.py)."""
from .common import *

RULES = {
    'writer': "the repository writer's output, read by the reference reader, yields the published identifiers and each role in its published place",
    'reader': "the reference writer's output, read by the repository reader, restores each role",
    'constants': 'chunk and type identifiers have their published numbers',
}
TECHNIQUE = 'alignment of the effect traces with those of a reference reader and writer of the published layout (spec/format.py)'
IDS = {'Header': 0, 'SimpleVocab': 1, 'NdArray': 2, 'BucketSubwordVocab': 3, 'QuantizedArray': 4, 'Metadata': 5, 'NdNorms': 6,
       'FastTextSubwordVocab': 7, 'ExplicitSubwordVocab': 8}
TYPES = {'u8': 1, 'f32': 10}
CHUNK_ID = {'SimpleVocab': 1, 'NdArray': 2, 'FinalfusionBucketVocab': 3, 'QuantizedArray': 4, 'Metadata': 5, 'Norms': 6,
            'FastTextVocab': 7, 'ExplicitVocab': 8, 'Header': 0}


def roles(W, kind, o):
    """expected tuple of the reference reader, from the public accessors"""
    a = W.attr
    cid = C(CHUNK_ID[kind])
    if kind == 'Header':
        return [('magic', C(b'FiFu')), ('version', ZERO), ('chunk ids', a(o, 'chunk_ids'))]
    if kind == 'SimpleVocab':
        return [('chunk id', cid), ('words', a(o, 'words'))]
    if kind in ('FinalfusionBucketVocab', 'FastTextVocab'):
        ix = W.I.getattr(o, 'subword_indexer', W.st, NODE)
        b = a(ix, 'buckets_exp' if kind[1] == 'i' else 'n_buckets') if kind[1] == 'i' else a(ix, 'n_buckets')
        return [('chunk id', cid), ('words', a(o, 'words')), ('min_n', a(ix, 'min_n')), ('max_n', a(ix, 'max_n')), ('buckets', b)]
    if kind == 'ExplicitVocab':
        ix = W.I.getattr(o, 'subword_indexer', W.st, NODE)
        ng = a(ix, 'ngrams')
        b = fresh_binder()
        d = a(ix, 'ngram_index')
        return [('chunk id', cid), ('words', a(o, 'words')), ('min_n', a(ix, 'min_n')), ('max_n', a(ix, 'max_n')), ('ngrams', ng),
                ('ngram indices', qmap(len_(ng), b, item(d, item(ng, b))))]
    if kind == 'NdArray':
        s = a(o, 'shape')
        return [('chunk id', cid), ('rows', s.a[0]), ('cols', s.a[1]), ('type id', C(10)), ('data', W.snap(o))]
    if kind == 'Norms':
        return [('chunk id', cid), ('count', W.I.shape_of(W.snap(o)).a[0]), ('type id', C(10)), ('data', W.snap(o))]
    if kind == 'Metadata':
        return [('chunk id', cid), ('text', mk('call', 'toml.dumps', (('', W.snap(o)),)))]
    if kind == 'QuantizedArray':
        pq = W.I.getattr(o, 'quantizer', W.st, NODE)
        s = a(o, 'shape')
        return [('chunk id', cid), ('quantized_len', a(o, 'quantized_len')), ('reconstructed_len', s.a[1]), ('n_centroids', a(pq, 'n_centroids')),
                ('rows', s.a[0]), ('code type', ONE), ('float type', C(10)), ('projection', a(pq, 'projection')), ('codebooks', a(pq, 'subquantizers')),
                ('norms', sym('qnorms', ('opt', ND))), ('codes', sym('codes', ND))]
    raise KeyError(kind)


def spec_args(W, kind):
    """role symbols for the reference writer, and what the loaded object must expose"""
    size = W.int('size', 0, 2**63)
    lo, hi = W.int('min_n', 1, 2**32 - 1), W.int('max_n', 1, 2**32 - 1)
    rng_ok = [le(lo, hi)]
    if kind == 'Header':
        return [sym('chunk_ids', ('list', INT))], []
    if kind == 'SimpleVocab':
        return [size, W.words()], []
    if kind == 'FinalfusionBucketVocab':
        return [size, W.words(), lo, hi, W.int('buckets', 1, 63)], rng_ok
    if kind == 'FastTextVocab':
        return [size, W.words(), lo, hi, W.int('buckets', 1, 2**32 - 1)], rng_ok
    if kind == 'ExplicitVocab':
        return [size, W.words(), lo, hi, W.words('ngrams'), sym('indices', ('list', INT))], rng_ok + [eq(len_(W.words('ngrams')), len_(sym('indices', ('list', INT))))]
    if kind == 'NdArray':
        return [size, W.array('data', (W.int('rows', 0, 2**40), W.int('cols', 1, 2**32 - 1)))], []
    if kind == 'Norms':
        return [size, W.array('data', (W.int('count', 0, 2**40),))], []
    if kind == 'Metadata':
        return [sym('text', STR)], []
    ql, nc, sub_, n = W.int('quantized_len', 1, 2**20), W.int('n_centroids', 1, 2**20), W.int('sub_len', 1, 2**20), W.int('n_rows', 0, 2**40)
    rl = mul(ql, sub_)
    return [size, W.array('projection', (rl, rl), opt=True), W.array('subquantizers', (ql, nc, sub_)), W.array('qnorms', (n,), opt=True),
            W.array('codes', (n, ql), '|u1')], []


def exposed(L, kind, A):
    """(role, term of loaded object, expected role symbol)"""
    W, o = L.R, L.r.val
    a = W.attr
    if kind == 'Header':
        return [('chunk ids', a(o, 'chunk_ids'), A[0])]
    if kind == 'SimpleVocab':
        return [('words', a(o, 'words'), A[1])]
    if kind in ('FinalfusionBucketVocab', 'FastTextVocab'):
        ix = W.I.getattr(o, 'subword_indexer', W.st, NODE)
        return [('words', a(o, 'words'), A[1]), ('min_n', a(ix, 'min_n'), A[2]), ('max_n', a(ix, 'max_n'), A[3]),
                ('buckets', a(ix, 'buckets_exp' if kind[1] == 'i' else 'n_buckets'), A[4])]
    if kind == 'ExplicitVocab':
        ix = W.I.getattr(o, 'subword_indexer', W.st, NODE)
        b = fresh_binder()
        return [('words', a(o, 'words'), A[1]), ('min_n', a(ix, 'min_n'), A[2]), ('max_n', a(ix, 'max_n'), A[3]), ('ngrams', a(ix, 'ngrams'), A[4]),
                ('ngram index', a(ix, 'ngram_index'), qdmap(len_(A[4]), b, item(A[4], b), item(A[5], b)))]
    if kind in ('NdArray', 'Norms'):
        return [('data', W.snap(o), A[1])]
    if kind == 'Metadata':
        return []
    pq = W.I.getattr(o, 'quantizer', W.st, NODE)
    return [('projection', a(pq, 'projection'), A[1]), ('codebooks', a(pq, 'subquantizers'), A[2]), ('reconstructed_len', item(a(o, 'shape'), ONE), item(W.I.shape_of(A[1]), ZERO))]


def run(R, P):
    spec = with_spec(P, 'format')
    for cname, table in (('ChunkIdentifier', IDS), ('TypeId', TYPES)):
        c = P.cls(Q[cname])
        loc = (c.module.rel, c.node.lineno, c.qual)
        for k, v in table.items():
            if k not in c.members:
                R.und('constants', '%s.%s' % (cname, k), loc, 'member is gone')
            else:
                R.expect(c.members[k] == v, 'constants', '%s.%s' % (cname, k), loc, 'published value is %d, found %s' % (v, c.members[k]))
    for kind in CHUNKS + ('Header',):
        if kind != 'Header':
            with R.group('constants', kind):
                w = World(P)
                v = w.static(kind, 'chunk_identifier').val
                R.expect(equal(v, C(CHUNK_ID[kind])), 'constants', '%s.chunk_identifier()' % kind, methloc(P, kind, 'chunk_identifier'), 'is %s' % v)
        # -- repository writer against reference reader
        with R.group('writer', kind):
            w = Written(P, kind)
            want = roles(w.W, kind, w.obj)
            wloc = methloc(P, kind, 'write_chunk')
            S = World(P)
            link(w.W, S)
            g = file_sym('inp')
            name = 'read_hash_vocab' if kind in ('FinalfusionBucketVocab', 'FastTextVocab') else 'read_' + kind
            r = S.I.run(P.func(spec + '.' + name), [g], {}, st=S.st)
            R.analysed(w.W)
            try:
                al, cases = align(S, w.items, g, reader_items(r.trace, g, ()), w.pos, pos_sym('inp'), w.W.pc(), False)
            except Mis as m:
                R.bad('writer', kind, m.wloc or wloc, 'the published layout cannot be read back: %s' % m.msg)
                continue
            val = S.snap(r.val)
            for c in cases:
                x = strip_views(al.resolve(val, c))
                R.count('fields_matched', c.n)
                for (role, t), got in zip(want, x.a):
                    t = strip_views(al.under(strip_views(t), c))
                    R.expect(equal(got, t, c.A), 'writer', '%s: %s [%s]' % (kind, role, short(c.A)), wloc, 'the published place of %s holds %s instead of %s' % (role, got, t))
        # -- reference writer against repository reader
        with R.group('reader', kind):
            S = World(P)
            A, extra = spec_args(S, kind)
            f = file_sym('out')
            r = S.I.run(P.func(spec + '.write_' + kind), [f] + A, {}, st=S.st)
            wi = writer_items(r.trace, f, S.st.pc)
            l = Loaded(P, kind)
            l.R.I.shapes.update(S.I.shapes)
            l.R.I.dtypes.update(S.I.dtypes)
            R.analysed(l.R)
            rloc = methloc(P, kind, 'read_chunk')
            try:
                al, cases = align(l.R, wi, l.f, l.items, pos_sym('out'), l.pos, extra, kind != 'Header')
            except Mis as m:
                R.bad('reader', kind, m.rloc or rloc, 'a file in the published layout is misread: %s' % m.msg)
                continue
            for c in cases:
                R.count('fields_matched', c.n)
                R.ok('reader', '%s: layout [%s]' % (kind, short(c.A)), rloc)
                for role, t, want in exposed(l, kind, A):
                    x = strip_views(al.resolve(t, c))
                    y = al.under(want, c)
                    R.expect(equal(x, y, c.A), 'reader', '%s: %s [%s]' % (kind, role, short(c.A)), rloc, 'restored as %s instead of %s' % (x, y))
