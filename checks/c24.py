"""C24: inconsistent embeddings cannot be constructed."""
from .c09 import *
from .build import some_embeddings
from ffsa.terms import _closure as closure
from ffsa.equiv import opaque_terms

RULES = {
    'compose': 'parts of the expected types are accepted exactly if the rows are as many as the upper bound and there is one norm per word',
    'types': 'a part that is not of the expected type is refused',
    'setter': 'replacing norms or metadata is accepted under the same conditions and then takes effect, alone',
    'refused': 'a refused replacement leaves the embeddings unchanged',
    'arrays': 'dense storage and norms accept exactly float32 arrays of their dimensionality',
    'pq': 'a product quantizer accepts only a square projection of the reconstructed length',
    'indexers': 'indexers accept exactly valid n-gram ranges and bucket counts',
    'kinds': 'a subword vocabulary accepts only its own kind of indexer',
    'writers': 'no other operation replaces the parts of embeddings',
}
TECHNIQUE = 'acceptance-condition extraction from constructors and setters against reference conditions; effect analysis of all public operations'
STORAGES = ('NdArray', 'QuantizedArray')
rows, nn = sym('rows', INT), sym('n_norms', INT)
RNG[rows] = RNG[nn] = (0, 2**40)


def pre(e):
    samples(e)
    r = random.Random('c24|%d' % e.seed)
    ws = tuple(r.sample(['a', 'b', 'c', 'é', ''], r.randint(0, 4)))
    e.vals[sym('words', ('list', STR))] = ws
    bx = r.choice((1, 2, 3))
    nb = r.choice((1, 2, 3, 7))
    e.vals[sym('buckets_exp', INT)], e.vals[sym('n_buckets', INT)] = bx, nb
    n = r.randint(0, 3)
    ids = []
    for _ in range(n):
        ids.append(r.randint(0, max(ids) + 1) if ids else 0)
    e.vals[sym('ngrams', NG)] = tuple(r.sample(['ab', 'bc', 'cd', '<a', 'é>'], n))
    e.vals[sym('ngram_idx', ('list', INT))] = tuple(ids)
    bound = len(ws) + r.choice((0, 2**bx, nb, len(set(ids)), n))
    e.vals[rows] = max(0, bound + r.choice((0, 0, 0, 0, 1, -1)))
    e.vals[nn] = max(0, r.choice((len(ws), len(ws), len(ws), len(ws) + 1, len(ws) - 1, e.vals[rows], e.vals[rows] - 1)))
    e.vals[sym('cols', INT)] = r.choice((1, 2))
    e.vals[sym('min_n', INT)], e.vals[sym('max_n', INT)] = r.choice(((1, 2), (3, 6), (2, 2)))


def make(W, cls, *args, **kw):
    """(value or None if always refused, acceptance literals, base length)"""
    nb = len(W.st.pc)
    W.I.trace, W.I.raises = [], []
    v = W.I.instantiate(W.cls(cls), list(args), kw, W.st, NODE)
    return v, (FALSE if W.st.dead else and_(*[l for l, _ in W.st.pc[nb:]]))


def refused(R, W, rule, what, loc, acc, base, kinds=None, why='is accepted'):
    if acc is FALSE:
        bad = kinds and {x.exc for x in W.I.raises} - set(kinds)
        R.expect(True if not bad else None, rule, what, loc, 'refused with %s' % bad)
        return
    # an attribute of a built-in container may not exist at all: no verdict then
    if opaque_terms(acc) or any(x.op in ('attr', 'ndim', 'size', 'shape', 'dt') and isinstance(x.a[0], T) and x.a[0].op == 'sym' and typ(x.a[0])[0] in ('list', 'dict', 'str') for x in closure(acc)):
        R.expect(None, rule, what, loc, 'acceptance not modelled: %s' % str(acc)[:200])
        return
    v = implied(not_(acc), base, pre=pre)
    R.expect(v, rule, what, loc, '%s if %s' % (why, str(acc)[:300]))


def state_of(W, e, st=None):
    st = st or W.st
    o = st.heap.get(e)
    return dict(o.fields) if o is not None else None


def run(R, P):
    CFG['distinct'] = False
    try:
        _run(R, P)
    finally:
        CFG['distinct'] = True


def raw(W):
    """values of wrong types, each with the attributes a sloppy check would look at"""
    for n, ty in (('raw_words', ('list', STR)), ('raw_dict', ('dict', STR, ANY)), ('raw_str', STR)):
        NOTNONE.add(sym(n, ty))
    return {
        'a plain float32 matrix': W.array('raw_matrix', (rows, sym('cols', INT))),
        'a plain float32 vector': W.array('raw_vector', (nn,)),
        'a list of words': sym('raw_words', ('list', STR)),
        'a dictionary': sym('raw_dict', ('dict', STR, ANY)),
        'a string': sym('raw_str', STR),
        'None': NONE,
    }


def parts(W, vk, sk):
    v = W.vocab(vk)
    s = W.storage(sk, rows, **({} if sk == 'NdArray' else {'projection': None, 'norms': None}))
    return v, s


def _run(R, P):
    loc = methloc(P, 'Embeddings', '__init__')
    words = sym('words', ('list', STR))
    for vk in VOCABS:
        for sk in STORAGES:
            for hn in (True, False):
                for hm in (True, False):
                    with R.group('compose', '%s/%s/%d%d' % (vk, sk, hn, hm)):
                        W = World(P)
                        v, s = parts(W, vk, sk)
                        nm = W.norms(n=nn) if hn else NONE
                        md = W.metadata() if hm else NONE
                        bound = W.attr(v, 'upper_bound')
                        base = W.pc()
                        want = eq(rows, bound)
                        if hn:
                            want = and_(want, eq(nn, len_(words)))
                        e, acc = make(W, 'Embeddings', s, v, nm, md)
                        R.analysed(W)
                        ok(R, 'compose', '%s, %s%s%s' % (vk, sk, ', norms' if hn else '', ', metadata' if hm else ''), loc, acc, want, base, pre,
                           'Embeddings accept other parts than those whose rows match the upper bound and whose norms match the words')
                        if W.st.dead:
                            continue
                        for n, x in (('storage', s), ('vocab', v), ('norms', nm), ('metadata', md)):
                            got = W.I.getattr(e, n, W.st, NODE)
                            R.expect(True if got is x else equal(W.snap(got), W.snap(x), W.pc(), pre=pre), 'compose', '%s/%s: %s' % (vk, sk, n), loc, 'the %s is not the given one' % n)
    types(R, P, loc)
    setters(R, P)
    arrays(R, P)
    indexers(R, P)
    writers(R, P)


def types(R, P, loc):
    def comp(W, vk='SimpleVocab', sk='NdArray'):
        v, s = parts(W, vk, sk)
        return {'storage': s, 'vocab': v, 'norms': W.norms(n=nn), 'metadata': W.metadata()}
    for part in ('storage', 'vocab', 'norms', 'metadata'):
        W0 = World(P)
        cands = list(raw(W0)) + [o for o in ('storage', 'vocab', 'norms', 'metadata') if o != part]
        for c in cands:
            if c == 'None' and part in ('norms', 'metadata'):
                continue
            with R.group('types', '%s := %s' % (part, c)):
                W = World(P)
                a = comp(W)
                x = a[c] if c in a else raw(W)[c]
                base = W.pc()
                a = dict(a)
                a[part] = x
                e, acc = make(W, 'Embeddings', a['storage'], a['vocab'], a['norms'], a['metadata'])
                R.analysed(W)
                refused(R, W, 'types', '%s := %s' % (part, c), loc, acc, base, None, '%s as %s is accepted' % (c, part))


def setters(R, P):
    words = sym('words', ('list', STR))
    for part in ('norms', 'metadata'):
        loc = methloc(P, 'Embeddings', part)
        for vk in VOCABS:
            for sk in STORAGES:
                for old in (True, False):
                    W0 = World(P)
                    for c in ['good', 'None'] + [x for x in raw(W0) if x != 'None'] + ['storage', 'vocab']:
                        if c not in ('good', 'None') and (vk, sk) not in (('SimpleVocab', 'NdArray'), ('FastTextVocab', 'NdArray')):
                            continue
                        what = '%s := %s (%s, %s, %s)' % (part, c, vk, sk, 'replacing' if old else 'unset')
                        with R.group('setter', what):
                            W = World(P)
                            e = some_embeddings(W, vk, sk, old, old, {} if sk == 'NdArray' else {'projection': None, 'norms': None})
                            if c == 'good':
                                x = W.norms(nn, name='norms2') if part == 'norms' else W.metadata('metadata2')
                            elif c in ('storage', 'vocab'):
                                x = W.I.getattr(e, c, W.st, NODE)
                            else:
                                x = raw(W)[c]
                            base = W.pc()
                            before = {n: W.I.getattr(e, n, W.st, NODE) for n in ('storage', 'vocab', 'norms', 'metadata')}
                            shot = {n: W.content(t) for n, t in before.items()}
                            nb = len(W.st.pc)
                            W.I.trace, W.I.raises = [], []
                            W.I.setattr_(e, part, x, W.st, NODE)
                            R.analysed(W)
                            acc = FALSE if W.st.dead else and_(*[l for l, _ in W.st.pc[nb:]])
                            if c in ('good', 'None'):
                                want = eq(nn, len_(words)) if c == 'good' and part == 'norms' else TRUE
                                ok(R, 'setter', what, loc, acc, want, base, pre, 'replacement accepted under other conditions')
                                if not W.st.dead:
                                    for n in before:
                                        got = W.I.getattr(e, n, W.st, NODE)
                                        wantv = x if n == part else before[n]
                                        R.expect(True if got is wantv else equal(W.content(got), W.content(wantv), W.pc(), pre=pre), 'setter', '%s: %s' % (what, n), loc,
                                                 'after the assignment, %s is not %s' % (n, 'the new value' if n == part else 'unchanged'))
                            else:
                                refused(R, W, 'setter', what, loc, acc, base, None, '%s as %s is accepted' % (c, part))
                            for x_ in list(W.I.raises):
                                keep = W.st
                                W.st = x_.st
                                dead, x_.st.dead = x_.st.dead, False
                                try:
                                    for n in before:
                                        got = W.I.getattr(e, n, W.st, NODE)
                                        R.expect(True if got is before[n] else equal(W.content(got), shot[n], W.pc(), pre=pre), 'refused', '%s: %s' % (what, n), loc,
                                                 'the refused assignment has replaced %s' % n)
                                finally:
                                    W.st = keep
                                    x_.st.dead = dead


def arrays(R, P):
    for cls, nd in (('NdArray', 2), ('Norms', 1)):
        loc = methloc(P, cls, '__new__')
        for d in (1, 2, 3):
            for dt in ('=f4', '<f4', '=f8', '=f2', '=i4', '=u4', '=i8', '=u8', '|u1', '|i1', '|b1'):
                with R.group('arrays', '%s %s/%d' % (cls, dt, d)):
                    W = World(P)
                    a = W.array('arr', tuple(W.int('d%d' % j, 0, 2**20) for j in range(d)), dt)
                    base = W.pc()
                    x, acc = make(W, cls, a)
                    R.analysed(W)
                    want = TRUE if dt.endswith('f4') and d == nd else FALSE
                    ok(R, 'arrays', '%s of a %d-dimensional %s array' % (cls, d, dt[1:]), loc, acc, want, base, None, 'accepted' if want is FALSE else 'refused')
    loc = methloc(P, 'PQ', '__init__')
    with R.group('pq', 'PQ'):
        W = World(P)
        ql, nc, sl, a, b = W.int('quantized_len', 1, 2**20), W.int('n_centroids', 1, 2**20), W.int('sub_len', 1, 2**20), W.int('pr', 1, 2**20), W.int('pc', 1, 2**20)
        qs, pr = W.array('subquantizers', (ql, nc, sl)), W.array('projection', (a, b))
        x, acc = make(W, 'PQ', qs, pr)
        R.analysed(W)

        def prep(e):
            r = random.Random('pq|%d' % e.seed)
            q, s = r.randint(1, 4), r.randint(1, 4)
            for t, v in ((ql, q), (sl, s), (nc, r.randint(1, 4)), (a, r.choice((q * s, q * s, q, q * s + 1))), (b, r.choice((q * s, q * s, s, q * s - 1)))):
                e.vals[t] = v
        ok(R, 'pq', 'projection', loc, acc, and_(eq(a, mul(ql, sl)), eq(b, mul(ql, sl))), [], prep, 'projection accepted under another condition')
        W = World(P)
        x, acc = make(W, 'PQ', W.array('subquantizers', (ql, nc, sl)), NONE)
        ok(R, 'pq', 'no projection', loc, acc, TRUE, [], prep, 'refused without a projection')


def indexers(R, P):
    lo, hi = sym('min_n_any', INT), sym('max_n_any', INT)
    par = sym('param_any', INT)

    def prei(e):
        r = random.Random('ix|%d' % e.seed)
        e.vals[lo], e.vals[hi] = r.choice(((1, 1), (1, 2), (3, 6), (0, 2), (0, 0), (2, 1), (6, 3), (1, 0), (3, 2**32 - 1)))
        e.vals[par] = r.choice((-1, 0, 1, 2, 21, 30, 31, 32, 33, 40, 62, 63, 64, 65, 2**31, 2**32 - 1, 2**32, 2**33))
        if r.randint(0, 2):
            e.vals[lo], e.vals[hi] = r.choice(((1, 1), (1, 2), (3, 6)))
    for ix, good in (('FinalfusionHashIndexer', lambda p: and_(lt(ZERO, p), lt(p, C(64)))), ('FastTextIndexer', lambda p: and_(lt(ZERO, p), lt(p, C(2**32))))):
        loc = methloc(P, ix, '__init__') if P.cls(Q[ix]).find('__init__') else methloc(P, ix, '__cinit__')
        with R.group('indexers', ix):
            W = World(P)
            x, acc = make(W, ix, par, lo, hi)
            R.analysed(W)
            want = and_(good(par), lt(ZERO, lo), le(lo, hi))
            # argument conversion to unsigned C integers refuses negative values by itself
            ok(R, 'indexers', ix, loc, acc, want, [le(ZERO, par), lt(par, C(2**63))], prei, 'accepts other ranges or bucket counts', 200)
    ix = 'ExplicitIndexer'
    loc = methloc(P, ix, '__init__') if P.cls(Q[ix]).find('__init__') else methloc(P, ix, '__cinit__')
    with R.group('indexers', ix):
        W = World(P)
        ng = sym('ngrams', NG)
        x, acc = make(W, ix, ng, lo, hi)
        R.analysed(W)
        want = and_(lt(ZERO, lo), le(lo, hi), eq(len_(mk('setof', ng)), len_(ng)))

        def pree(e):
            prei(e)
            r = random.Random('ixe|%d' % e.seed)
            e.vals[ng] = tuple(r.choice(['ab', 'bc', 'cd', '<a']) for _ in range(r.randint(0, 3)))
        ok(R, 'indexers', ix, loc, acc, want, [], pree, 'accepts other ranges or repeated n-grams', 200)
    own = {'FinalfusionBucketVocab': 'FinalfusionHashIndexer', 'FastTextVocab': 'FastTextIndexer', 'ExplicitVocab': 'ExplicitIndexer'}
    for vk, mine in own.items():
        loc = methloc(P, vk, '__init__')
        for ix in list(own.values()) + ['a string', 'a list of words', 'a dictionary']:
            with R.group('kinds', '%s(%s)' % (vk, ix)):
                W = World(P)
                x = W.indexer(ix) if ix in own.values() else raw(W)[ix]
                base = W.pc()
                v, acc = make(W, vk, sym('words', ('list', STR)), x)
                R.analysed(W)
                if ix == mine:
                    ws = sym('words', ('list', STR))
                    ok(R, 'kinds', '%s with %s' % (vk, ix), loc, acc, eq(len_(mk('setof', ws)), len_(ws)), base, pre, 'its own indexer is refused, or repeated words are accepted')
                else:
                    refused(R, W, 'kinds', '%s with %s' % (vk, ix), loc, acc, base, None, 'another indexer is accepted')


PARTS = ('storage', 'vocab', 'norms', 'metadata')


def writers(R, P):
    """every public operation leaves the parts of the embeddings what they were"""
    word = sym('word', STR)
    ops = {
        '__getitem__': [word], 'embedding': [word], 'embedding_with_norm': [word], '__contains__': [word], '__iter__': [], 'bucket_to_explicit': [],
        'chunks': [], 'analogy': [word, sym('word2', STR), sym('word3', STR)], 'word_similarity': [word], '__len__': [],
        'embedding_similarity': [sym('query', ND)], 'write': [sym('path', STR)],
    }
    c = P.cls(Q['Embeddings'])
    for m in sorted(c.public_methods()) if hasattr(c, 'public_methods') else sorted(ops):
        if m not in ops or c.find(m) is None:
            continue
        for vk in ('SimpleVocab', 'FastTextVocab'):
            with R.group('writers', '%s/%s' % (m, vk)):
                W = World(P)
                e = some_embeddings(W, vk, 'NdArray', True, True)
                before = {n: W.I.getattr(e, n, W.st, NODE) for n in PARTS}
                r = W.call(e, m, *ops[m])
                R.analysed(W)
                for n in PARTS:
                    got = W.I.getattr(e, n, W.st, NODE) if not W.st.dead else before[n]
                    R.expect(True if got is before[n] else equal(W.snap(got), W.snap(before[n]), W.pc(), pre=pre), 'writers', '%s (%s): %s' % (m, vk, n), methloc(P, 'Embeddings', m),
                             '%s() replaces the %s' % (m, n))
    for n in ('storage', 'vocab'):
        with R.group('writers', 'assignment to ' + n):
            W = World(P)
            e = some_embeddings(W, 'SimpleVocab', 'NdArray', True, True)
            old = W.I.getattr(e, n, W.st, NODE)
            x = W.vocab('SimpleVocab', '_b') if n == 'vocab' else W.ndarray(name='matrix2', rows=sym('rows2', INT))
            W.I.trace, W.I.raises = [], []
            W.I.setattr_(e, n, x, W.st, NODE)
            got = old if W.st.dead else W.I.getattr(e, n, W.st, NODE)
            R.expect(got is old, 'writers', 'assignment to ' + n, methloc(P, 'Embeddings', n), 'assigning to %s replaces it without any check' % n)
