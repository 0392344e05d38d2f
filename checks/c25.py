"""C25: equality of vocabularies and indexers means identical behaviour."""
from .c09 import *

RULES = {
    'agree': 'two objects of one kind that compare equal agree in words, n-gram range, bucket parameter and n-gram table',
    'kinds': 'objects of different kinds never compare equal',
    'same': 'objects built from (or restored with) the same parts compare equal',
    'unequal': '!= is the negation of ==',
}
TECHNIQUE = 'value numbering of == over pairs of symbolic objects, implication against the parts that determine lookups'
IX = {'FinalfusionBucketVocab': 'FinalfusionHashIndexer', 'FastTextVocab': 'FastTextIndexer', 'ExplicitVocab': 'ExplicitIndexer'}
LS, LI = ('list', STR), ('list', INT)


def parts(k, tag):
    """symbols that determine the lookups of an object"""
    if k in IX:
        return [sym('words' + tag, LS)] + parts(IX[k], tag)
    if k == 'SimpleVocab':
        return [sym('words' + tag, LS)]
    p = [sym('min_n' + tag, INT), sym('max_n' + tag, INT)]
    if k in PARAM:
        return p + [sym(PARAM[k] + tag, INT)]
    return p + [('table', sym('ngrams' + tag, LS), sym('ngram_idx' + tag, LI))]


def pre_copy(e):
    pre(e, True)


def pre(e, copy=False):
    r = random.Random('eq|%d' % e.seed)
    n = r.randint(0, 3)
    va = {
        'words': tuple(r.sample(['a', 'b', 'c', 'é', ''], r.randint(0, 4))),
        'min_n': r.randint(1, 3), 'buckets_exp': r.randint(1, 30), 'n_buckets': r.choice((1, 5, 255, 256, 65535, 65536, 2000000, 2**24, 2**31, 2**32 - 1)),
        'ngrams': tuple(r.sample(['ab', 'bc', 'cd', '<a', 'é>'], n)),
    }
    va['max_n'] = va['min_n'] + r.randint(0, 3)
    if r.random() < .3:
        va['min_n'] = r.choice((1, 127, 255, 256, 1000, 65536, 2**31))
        va['max_n'] = va['min_n'] + r.choice((0, 1, 127, 255, 256, 65535, 65536, 2**31 - 1))
    ids = []
    for _ in range(n):
        ids.append(r.randint(0, max(ids) + 1) if ids else 0)
    va['ngram_idx'] = tuple(ids)
    vb = dict(va)
    m = 99 if copy else r.randint(0, 9)
    if m == 0:
        vb['words'] = tuple(reversed(va['words']))
    elif m == 1:
        vb['words'] = va['words'] + ('new',)
    elif m == 2:
        vb['words'] = va['words'][:-1]
    elif m == 3:
        vb['min_n'] = max(1, va['min_n'] - r.choice((1, 1, 16, 256, 65536)))
    elif m == 4:
        vb['max_n'] = va['max_n'] + r.choice((1, 1, 16, 256, 65536))
    elif m == 5:
        vb['buckets_exp'] += 1
        vb['n_buckets'] += r.choice((1, 1, 256, 65536)) if va['n_buckets'] < 2**32 - 65536 else -1
    elif m == 6:
        vb['ngrams'] = tuple(reversed(va['ngrams']))
    elif m == 7 and n:
        vb['ngrams'] = va['ngrams'][:-1] + ('zz',)
    elif m == 8:
        ids = list(va['ngram_idx'])
        r.shuffle(ids)
        vb['ngram_idx'] = tuple(ids)
    elif m == 9:
        vb['words'] = tuple(w + 'x' for w in va['words'])
    for tag, vals_ in (('', va), ('_b', vb)):
        for nm, ty in (('words', LS), ('ngrams', LS), ('ngram_idx', LI), ('min_n', INT), ('max_n', INT), ('buckets_exp', INT), ('n_buckets', INT)):
            e.vals[sym(nm + tag, ty)] = vals_[nm]


def make(W, k, tag):
    return W.indexer(k, tag) if k in INDEXERS else W.vocab(k, tag)


def run(R, P):
    CFG['distinct'] = False
    try:
        _run(R, P)
    finally:
        CFG['distinct'] = True


def _run(R, P):
    for group in (VOCABS, INDEXERS):
        for k in group:
            loc = methloc(P, k, '__eq__')
            with R.group('agree', k):
                W = World(P)
                a, b = make(W, k, ''), make(W, k, '_b')
                got = vspec(W, 'same', a, b)
                R.analysed(W)
                A = W.pc()
                for x, y in zip(parts(k, ''), parts(k, '_b')):
                    if isinstance(x, tuple):
                        S = World(P)
                        g = eq(vspec(S, 'table', x[1], x[2]), vspec(S, 'table', y[1], y[2]))
                        what = '%s: n-gram table' % k
                    else:
                        g = eq(x, y)
                        what = '%s: %s' % (k, x)
                    v = implied(g, A + [got], pre=pre, want=80, tries=1500)
                    if v is False and opaque_terms(got):
                        v = None
                    R.expect(v, 'agree', what, loc, 'two objects that differ here compare equal: %s' % str(differ(g, TRUE, A + [got], pre=pre, tries=1500))[:300])
                W = World(P)
                a, b = make(W, k, ''), make(W, k, '_b')
                ne = vspec(W, 'differs', a, b)
                ok(R, 'unequal', k, loc, ne, not_(got), A, pre, '!= is not the negation of ==')
            with R.group('same', k):
                W = World(P)
                a, b = make(W, k, ''), make(W, k, '_b')
                ok(R, 'same', k, loc, vspec(W, 'same', a, b), TRUE, W.pc(), pre_copy, 'equal parts compare unequal')
            with R.group('kinds', k):
                for other in group:
                    if other == k:
                        continue
                    W = World(P)
                    a, b = make(W, k, ''), make(W, other, '')
                    ok(R, 'kinds', '%s == %s' % (k, other), loc, vspec(W, 'same', a, b), FALSE, W.pc(), pre, 'different kinds compare equal')
                for nm, o in (('string', sym('s', STR)), ('number', i_), ('list', sym('items', LS)), ('None', NONE)):
                    W = World(P)
                    a = make(W, k, '')
                    ok(R, 'kinds', '%s == %s' % (k, nm), loc, vspec(W, 'same', a, o), FALSE, W.pc(), pre, 'another type compares equal')
