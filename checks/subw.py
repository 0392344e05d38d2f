"""Symbols and reference terms shared by the subword checks."""
from .common import *
import random

word, br, wn, off = sym('word', STR), sym('bracket', BOOL), sym('with_ngrams', BOOL), sym('offset', INT)
RNG[off] = (0, 2**40)
NOTNONE.add(word)
INDEXERS = ('FinalfusionHashIndexer', 'FastTextIndexer', 'ExplicitIndexer')
BULK = {'FinalfusionHashIndexer': 'finalfusion_indices', 'FastTextIndexer': 'fasttext_indices', 'ExplicitIndexer': 'explicit_indices'}
HASH = {'FinalfusionHashIndexer': 'finalfusion_hash', 'FastTextIndexer': 'fasttext_hash'}
PARAM = {'FinalfusionHashIndexer': 'buckets_exp', 'FastTextIndexer': 'n_buckets'}
lo, hi = sym('min_n', INT), sym('max_n', INT)
CHARS = 'abc<>\u00e9\u20ac\U0001f600\u4e2d\U00010348 \u00ff\u0080'


def spec_in(W, fn, *args):
    """the reference function analysed in the session W"""
    q = with_spec(W.prog, 'subword')
    return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))


def spec_call(P, fn, *args, **kw):
    return spec_in(World(P, **kw), fn, *args)


def indexer(P, k, **kw):
    W = World(P, **kw)
    return W, W.indexer(k)


def samples(e):
    """assignments that matter for n-grams: lengths around the n-gram bounds, non-ASCII text,
    n-gram tables that share n-grams with the word, and extreme parameters"""
    r = random.Random('sub|%d' % e.seed)
    w = ''.join(r.choice(CHARS) for _ in range(r.choice((0, 1, 1, 2, 3, 4, 5, 6, 7))))
    e.vals[word] = w
    a = r.choice((1, 1, 2, 3, 4))
    e.vals[lo], e.vals[hi] = a, a + r.choice((0, 1, 2, 3, 20))
    if e.seed % 25 == 7:        # longer than a byte can count
        w = ''.join(r.choice('abcdefg\u00e9') for _ in range(r.choice((257, 262))))
        e.vals[word] = w
        e.vals[lo] = e.vals[hi] = len(w) - r.choice((0, 1, 4))
    e.vals[off] = r.choice((0, 1, 7, 300, 2**16, 2**32 - 1, 2**32 + 3, 2**40))
    e.vals[sym('buckets_exp', INT)] = r.choice((0, 1, 5, 21, 31, 32, 33, 40, 63))
    e.vals[sym('n_buckets', INT)] = r.choice((1, 2, 3, 100, 2000000, 2**31, 2**31 + 11, 2**32 - 1))
    b = '<' + w + '>'
    subs = [b, w] if len(w) > 20 else sorted({t[i:j] for t in (b, w) for i in range(len(t)) for j in range(i + 1, len(t) + 1)})
    r.shuffle(subs)
    ng = subs[:r.randint(0, 6)] + ['qq', 'z'][:r.randint(0, 2)]
    r.shuffle(ng)
    e.vals[sym('ngrams', ('list', STR))] = tuple(ng)
    ids = []
    for i in range(len(ng)):
        ids.append(r.randint(0, max(ids) + 1) if ids else 0)
    r.shuffle(ids)
    e.vals[sym('ngram_idx', ('list', INT))] = tuple(ids)


def same(x, y, A=(), **kw):
    kw.setdefault('want', 40)
    return equal(x, y, A, pre=samples, **kw)


def cex(x, y, A=()):
    d = differ(x, y, A, pre=samples, want=40)
    if not isinstance(d, dict):
        return ''
    return 'e.g. %s instead of %s for %s' % (d['values'][0][:120], d['values'][1][:120], {k: v for k, v in sorted(d['env'].items())})


def expect_same(R, rule, what, loc, got, want, A=()):
    v = same(got, want, A)
    return R.expect(v, rule, what, loc, cex(got, want, A) if v is False else 'not comparable: %s / %s' % (str(got)[:200], str(want)[:200]))
