"""C13: all subword code paths agree on the n-grams of a word."""
from .subw import *
from .exits import *

RULES = {
    'ngrams': 'ngrams() returns exactly the reference n-gram list (all character n-grams of the optionally bracketed word with min_n <= n <= max_n, by start position, longest first)',
    'bulk': 'an indexer\'s subword_indices() lists, for exactly those n-grams and in that order, the index the indexer gives the single n-gram plus the offset (n-grams without an index are left out)',
    'defaults': 'without options the word is bracketed, the offset is 0 and only indices are returned; the default n-gram range is 3 to 6',
    'vocab': 'a vocabulary\'s subwords() and subword_indices() use its indexer\'s own n-gram range, the number of words as the offset and the caller\'s options',
}
TECHNIQUE = 'value numbering of every n-gram path against a reference function (random interpretation of the difference)'


def run(R, P):
    loc = fnloc(P, PKG + 'subword.ngrams.ngrams')
    with R.group('ngrams', 'ngrams'):
        W = World(P)
        r = W.func('subword.ngrams.ngrams', word, lo, hi, br)
        R.analysed(W)
        expect_same(R, 'ngrams', 'ngrams()', loc, W.content(r.val), spec_call(P, 'ngrams', word, lo, hi, br), W.pc())
    with R.group('defaults', 'ngrams'):
        W = World(P)
        r = W.func('subword.ngrams.ngrams', word)
        expect_same(R, 'defaults', 'ngrams()', loc, W.content(r.val), spec_call(P, 'ngrams', word, C(3), C(6), TRUE), W.pc())
        for fl in (TRUE, FALSE):
            W = World(P)
            r = W.func('subword.ngrams.ngrams', word, bracket=fl)
            expect_same(R, 'defaults', 'ngrams(bracket=%s)' % fl, loc, W.content(r.val), spec_call(P, 'ngrams', word, C(3), C(6), fl), W.pc())
    for k in INDEXERS:
        loc = methloc(P, k, 'subword_indices')
        with R.group('bulk', k):
            W, ix = indexer(P, k)
            got = W.content(W.call(ix, 'subword_indices', word, off, br, wn).val)
            R.analysed(W)
            expect_same(R, 'bulk', k, loc, got, spec_in(W, 'indexed', word, lo, hi, ix, off, br, wn), W.pc())
        with R.group('defaults', k):
            W, ix = indexer(P, k)
            got = W.content(W.call(ix, 'subword_indices', word).val)
            expect_same(R, 'defaults', k, loc, got, spec_in(W, 'indexed', word, lo, hi, ix, ZERO, TRUE, FALSE), W.pc())
        with R.group('bulk', k + ' keywords'):
            W, ix = indexer(P, k)
            got = W.content(W.call(ix, 'subword_indices', word, offset=off, bracket=br, with_ngrams=wn).val)
            expect_same(R, 'bulk', k + ' (keyword options)', loc, got, spec_in(W, 'indexed', word, lo, hi, ix, off, br, wn), W.pc())
        with R.group('defaults', k + ' range'):
            W = World(P)
            ix = W.new(k, *([W.words('ngrams')] if k == 'ExplicitIndexer' else []))
            R.expect(True if (W.attr(ix, 'min_n'), W.attr(ix, 'max_n')) == (C(3), C(6)) else False, 'defaults', k + ' range', loc,
                     'the default n-gram range is %s..%s' % (W.attr(ix, 'min_n'), W.attr(ix, 'max_n')))
        with R.group('bulk', k + ' range'):
            W, ix = indexer(P, k)
            for n, s in (('min_n', lo), ('max_n', hi)):
                expect_same(R, 'bulk', '%s.%s' % (k, n), methloc(P, k, '__init__'), W.attr(ix, n), s, W.pc())
    for k in VOCABS[1:]:
        for args, kw, b, w in (((br,), {}, br, None), ((), {}, TRUE, None), ((), {'bracket': br}, br, None)):
            with R.group('vocab', k + '.subwords'):
                W = World(P)
                v = W.vocab(k)
                got = W.content(W.call(v, 'subwords', word, *args, **kw).val)
                R.analysed(W)
                expect_same(R, 'vocab', '%s.subwords(%s)' % (k, ', '.join(map(str, list(args) + list(kw)))), methloc(P, k, 'subwords'), got,
                            spec_call(P, 'ngrams', word, lo, hi, b), W.pc())
        for args, kw, b, w in (((br, wn), {}, br, wn), ((), {}, TRUE, FALSE), ((), {'with_ngrams': wn}, TRUE, wn), ((), {'bracket': br}, br, FALSE)):
            with R.group('vocab', k + '.subword_indices'):
                W = World(P)
                v = W.vocab(k)
                got = W.content(W.call(v, 'subword_indices', word, *args, **kw).val)
                ix = W.I.getattr(v, 'subword_indexer', W.st, NODE)
                R.analysed(W)
                expect_same(R, 'vocab', '%s.subword_indices(%s)' % (k, ', '.join(map(str, list(args) + list(kw)))), methloc(P, k, 'subword_indices'), got,
                            spec_in(W, 'indexed', word, lo, hi, ix, len_(W.words()), b, w), W.pc())
