"""C17: bucket-to-explicit conversion."""
from .c11 import *
from .c11 import pre as eff_pre

RULES = {
    'accepts': 'the conversion never fails for consistent bucket embeddings, also without any n-gram',
    'words': 'the new vocabulary has the same words in the same order, each with its own row and norm',
    'ngrams': 'the new vocabulary knows exactly the n-grams of the in-vocabulary words, within the same length range',
    'rows': 'the row of every such n-gram equals the row of its former bucket',
    'sharing': 'two n-grams share an index exactly if they shared a bucket',
    'size': 'the number of rows is the number of words plus the number of distinct buckets used',
    'refuse': 'other vocabularies are refused with a TypeError',
    'vocab': 'to_explicit() of the vocabulary gives the same vocabulary as the conversion of the embeddings',
}
TECHNIQUE = 'value numbering of the conversion (dictionary folds, array write versions) against per-n-gram reference rows'
p1, p2, i2_ = sym('pos1', INT), sym('pos2', INT), sym('i2', INT)
for s in (p1, p2, i2_):
    RNG[s] = (0, 2**20)


def pre(e):
    r = random.Random('conv|%d' % e.seed)
    n = r.choice((1, 1, 2, 3))
    ws = []
    while len(ws) < n:
        w = ''.join(r.choice('abé') for _ in range(r.choice((1, 2, 2, 3))))
        if w not in ws:
            ws.append(w)
    e.vals[sym('words', ('list', STR))] = tuple(ws)
    e.vals[lo], e.vals[hi] = r.choice(((1, 2), (2, 3), (3, 3), (2, 2), (3, 6), (4, 5), (6, 7)))
    e.vals[i_], e.vals[i2_] = r.randrange(n), r.randrange(n)
    e.vals[p1], e.vals[p2] = r.randrange(4), r.randrange(4)
    e.vals[sym('buckets_exp', INT)] = r.choice((0, 1, 2, 3))
    e.vals[sym('n_buckets', INT)] = r.choice((1, 2, 3, 5, 7))
    e.vals[sym('cols', INT)] = r.choice((1, 2))
    e.vals[sym('quantized_len', INT)] = 2
    e.vals[sym('sub_len', INT)] = 1
    e.vals[sym('n_centroids', INT)] = 3


def cspec(W, fn, *args):
    q = with_spec(W.prog, 'convert')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


def cmp(R, rule, what, loc, got, want, A, why, n=40):
    ok(R, rule, what, loc, got, want, A, pre, why, n)


def run(R, P):
    for k in ('FinalfusionBucketVocab', 'FastTextVocab'):
        for st, kw in (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None})):
            for has_norms in (True, False):
                if st != 'NdArray' and not has_norms:
                    continue
                tag = '%s/%s%s' % (k, st, '' if has_norms else ' without norms')
                with R.group('accepts', tag):
                    one(R, P, k, st, kw, has_norms, tag)
    for k in ('SimpleVocab', 'ExplicitVocab'):
        with R.group('refuse', k):
            W = World(P)
            e = some_embeddings(W, k, 'NdArray', True, True)
            r = W.call(e, 'bucket_to_explicit')
            loc = methloc(P, 'Embeddings', 'bucket_to_explicit')
            R.analysed(W)
            kinds = {x.exc for x in r.raises}
            R.expect(W.st.dead and kinds == {'TypeError'}, 'refuse', k, loc, 'a %s is not refused with a TypeError' % k)


def one(R, P, k, st, kw, has_norms, tag):
    W = World(P)
    loc = methloc(P, 'Embeddings', 'bucket_to_explicit')
    W.I.keyerrors = True
    e = some_embeddings(W, k, st, has_norms, True, kw)
    v = W.I.getattr(e, 'vocab', W.st, NODE)
    s = W.I.getattr(e, 'storage', W.st, NODE)
    ix = W.I.getattr(v, 'subword_indexer', W.st, NODE)
    words = sym('words', ('list', STR))
    nw = len_(words)
    base = W.pc()
    nb = len(W.st.pc)
    used = cspec(W, 'buckets_used', v, ix)
    ngs = cspec(W, 'ngrams_used', v)

    def aside(f):
        keep = W.st
        W.st = keep.copy()
        try:
            return f()
        finally:
            W.st = keep

    def ngram(i, p):
        sub = aside(lambda: W.content(W.call(v, 'subwords', item(words, i)).val))
        return item(sub, p), lt(p, len_(sub))

    def call(o, *a):
        return aside(lambda: W.content(W.call(o, '__call__', *a).val))

    def row(o, i):
        return aside(lambda: W.content(W.I.subscript(o, i, W.st, NODE)))
    g1, c1 = ngram(i_, p1)
    g2, c2 = ngram(i2_, p2)
    b1, b2 = call(ix, g1), call(ix, g2)
    want_row = row(s, add(nw, b1))
    want_word = row(s, i_)
    norms = aside(lambda: W.content(W.I.getattr(e, 'norms', W.st, NODE)))
    r = W.call(e, 'bucket_to_explicit')
    R.analysed(W)
    e2 = r.val
    acc = and_(*[l for l, _ in W.st.pc[nb:]])
    cmp(R, 'accepts', tag, loc, acc, TRUE, base, 'the conversion of consistent embeddings fails')
    A = W.pc()
    bad = [x for x in r.raises if x.exc != 'AssertionError']
    v2 = W.I.getattr(e2, 'vocab', W.st, NODE)
    ix2 = W.I.getattr(v2, 'subword_indexer', W.st, NODE)
    s2 = W.I.getattr(e2, 'storage', W.st, NODE)
    cs = W.I.classes_of(v2, W.st)
    R.expect(bool(cs) and {c.name for c in cs} == {'ExplicitVocab'} if cs else None, 'ngrams', '%s: kind' % tag, loc, 'the new vocabulary is %s' % [c.name for c in cs])
    cmp(R, 'words', '%s: words' % tag, loc, W.content(W.attr(v2, 'words')), words, A, 'words')
    cmp(R, 'words', '%s: row' % tag, loc, row(s2, i_), want_word, A + [lt(i_, nw)], 'row of a word')
    n2 = W.content(W.attr(e2, 'norms'))
    cmp(R, 'words', '%s: norms' % tag, loc, n2, norms, A, 'norms')
    cmp(R, 'ngrams', '%s: n-grams' % tag, loc, cspec(W, 'as_set', W.attr(ix2, 'ngrams')), ngs, A, 'set of n-grams')
    for n, x in (('min_n', lo), ('max_n', hi)):
        cmp(R, 'ngrams', '%s: %s' % (tag, n), loc, W.content(W.attr(ix2, n)), x, A, n)
        cmp(R, 'ngrams', '%s: vocab %s' % (tag, n), loc, W.content(W.attr(v2, n)), x, A, n)
    k1, k2 = call(ix2, g1), call(ix2, g2)
    B = A + [c1, lt(i_, nw)]
    cmp(R, 'ngrams', '%s: index' % tag, loc, isnone(k1), FALSE, B, 'an n-gram of a word has no index')
    cmp(R, 'rows', tag, loc, row(s2, add(nw, k1)), want_row, B, 'row of an n-gram')
    cmp(R, 'sharing', tag, loc, eq(k1, k2), eq(b1, b2), B + [c2, lt(i2_, nw)], 'n-grams share an index')
    cmp(R, 'size', '%s: rows' % tag, loc, item(W.content(W.attr(s2, 'shape')), ZERO), add(nw, used), A, 'number of rows')
    cmp(R, 'size', '%s: columns' % tag, loc, item(W.content(W.attr(s2, 'shape')), ONE), aside(lambda: item(W.attr(s, 'shape'), ONE)), A, 'number of columns')
    cmp(R, 'size', '%s: bound' % tag, loc, W.content(W.attr(v2, 'upper_bound')), add(nw, used), A, 'upper bound')
    v3 = W.call(v, 'to_explicit').val
    ix3 = W.I.getattr(v3, 'subword_indexer', W.st, NODE)
    loc3 = methloc(P, k, 'to_explicit')
    cmp(R, 'vocab', '%s: words' % tag, loc3, W.content(W.attr(v3, 'words')), words, A, 'words')
    cmp(R, 'vocab', '%s: index' % tag, loc3, call(ix3, g1), k1, B, 'index of an n-gram')
