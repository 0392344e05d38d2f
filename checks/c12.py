"""C12: a vocabulary is a bijection between its words and 0..n-1."""
from .c09 import *

RULES = {
    'numbering': 'the index of every vocabulary, constructed, read from a chunk or imported, maps exactly the i-th word to i',
    'words': 'the word list is the one given',
    'duplicates': 'a word list is accepted exactly if it has no duplicates',
    'length': 'the length is the number of words',
    'iteration': 'iteration yields the words in order',
    'membership': 'a string is contained exactly if it is a known word (index zero included), an iterable exactly if all of its items are, nothing else is',
    'ngrams': 'an explicit indexer\'s length, iteration and membership describe its n-grams',
}
TECHNIQUE = 'value numbering and acceptance-condition extraction against reference predicates'
items_ = sym('items', ('list', STR))
NOTNONE.add(items_)
words = sym('words', ('list', STR))


def pre(e):
    """word lists with and without duplicates, queries that hit the first, another or no word"""
    samples(e)
    r = random.Random('voc|%d' % e.seed)
    ws = [''.join(r.choice('abé') for _ in range(r.randint(0, 2))) for _ in range(r.randint(0, 4))]
    if r.random() < .7:
        ws = list(dict.fromkeys(ws))
    e.vals[words] = tuple(ws)
    if ws and r.random() < .6:
        e.vals[word] = r.choice((ws[0], r.choice(ws), ws[-1]))
    e.vals[items_] = tuple((r.choice(ws) if ws and r.random() < .8 else 'zz') for _ in range(r.randint(0, 3)))
    e.vals[i_] = r.randint(0, 3)


def _run(R, P):
    for k in VOCABS:
        loc = methloc(P, k, '__init__')
        with R.group('numbering', k):
            W, v = vocab(P, k)
            acc = accept(W)
            R.analysed(W)
            ok(R, 'numbering', k, loc, W.attr(v, 'word_index'), vspec(W, 'numbered', words), W.pc(), pre, 'word index')
            ok(R, 'words', k, loc, W.attr(v, 'words'), words, W.pc(), pre, 'word list')
            base = World(P)
            if k != 'SimpleVocab':
                base.indexer({'FinalfusionBucketVocab': 'FinalfusionHashIndexer', 'FastTextVocab': 'FastTextIndexer', 'ExplicitVocab': 'ExplicitIndexer'}[k])
            W2 = World(P)
            ok(R, 'duplicates', k, loc, acc, vspec(W2, 'duplicate_free', words), base.pc(), pre, 'a word list is accepted/refused against the rule')
        with R.group('length', k):
            W, v = vocab(P, k)
            ok(R, 'length', k, methloc(P, k, '__len__'), W.I.call_attr(v, '__len__', [], {}, W.st, NODE), len_(words), W.pc(), pre, 'length')
        with R.group('iteration', k):
            W, v = vocab(P, k)
            got = W.content(W.I.call_func(P.func(with_spec(P, 'vocab') + '.as_list'), [v], {}, W.st, NODE))
            ok(R, 'iteration', k, methloc(P, k, '__iter__'), got, words, W.pc(), pre, 'iteration')
            R.analysed(W)
        with R.group('membership', k):
            W, v = vocab(P, k)
            got = W.content(W.call(v, '__contains__', word).val)
            ok(R, 'membership', k, methloc(P, k, '__contains__'), got, vspec(W, 'member', words, word), W.pc(), pre, 'membership of a string')
            W, v = vocab(P, k)
            got = W.content(W.call(v, '__contains__', items_).val)
            ok(R, 'membership', k + ' (iterable)', methloc(P, k, '__contains__'), got, vspec(W, 'members', words, items_), W.pc(), pre, 'membership of an iterable')
            W, v = vocab(P, k)
            got = W.content(W.call(v, '__contains__', i_).val)
            ok(R, 'membership', k + ' (int)', methloc(P, k, '__contains__'), got, FALSE, W.pc(), pre, 'membership of a number')
            R.analysed(W)
        with R.group('numbering', k + ' (read)'):
            L = World(P)
            f = file_sym('inp')
            r = L.static(k, 'read_chunk', f)
            loaded(R, P, L, r.val, k + ' (read)', methloc(P, k, 'read_chunk'))
    for q in ('compat.word2vec.load_word2vec', 'compat.text.load_text', 'compat.text.load_text_dims', 'compat.fasttext.load_fasttext'):
        with R.group('numbering', q):
            L = World(P)
            r = L.func(q, sym('path', STR))
            v = L.I.getattr(r.val, 'vocab', L.st, NODE)
            loaded(R, P, L, v, q, fnloc(P, PKG + q))
    k = 'ExplicitIndexer'
    ng = W.words('ngrams')
    with R.group('ngrams', k):
        W, ix = indexer(P, k)
        ok(R, 'ngrams', 'length', methloc(P, k, '__len__'), W.I.call_attr(ix, '__len__', [], {}, W.st, NODE), len_(ng), W.pc(), pre, 'length')
        W, ix = indexer(P, k)
        got = W.content(W.I.call_func(P.func(with_spec(P, 'vocab') + '.as_list'), [ix], {}, W.st, NODE))
        ok(R, 'ngrams', 'iteration', methloc(P, k, '__iter__'), got, ng, W.pc(), pre, 'iteration')
        for arg, fn, t in ((word, 'member', 'string'), (items_, 'members', 'iterable')):
            W, ix = indexer(P, k)
            got = W.content(W.call(ix, '__contains__', arg).val)
            ok(R, 'ngrams', 'membership of a ' + t, methloc(P, k, '__contains__'), got, vspec(W, fn, ng, arg), W.pc(), pre, 'membership')
        W, ix = indexer(P, k)
        ok(R, 'ngrams', 'membership of a number', methloc(P, k, '__contains__'), W.content(W.call(ix, '__contains__', i_).val), FALSE, W.pc(), pre, 'membership')
        R.analysed(W)


def count(n):
    return n.a[0] if n.op == 'max0' else n


def loaded(R, P, L, v, what, loc):
    ws = L.attr(v, 'words')
    ix = L.attr(v, 'word_index')
    R.analysed(L)
    if ws.op == 'map' and ix.op == 'dmap' and ws.a[-1] == ix.a[-1] and count(ws.a[0]) is count(ix.a[0]) and ws.a[1] is ix.a[1]:
        same = True if ix.a[2] is mk('bv', ix.a[-1]) else None
        if same:
            R.expect(True, 'numbering', what, loc)
            lens = (mk('len', ix), len_(ix))
            ns = [ws.a[0], count(ws.a[0]), len_(ws)]
            if any(l.op == 'eq' and any(l.a[a] in lens and l.a[1 - a] in ns for a in (0, 1)) for l in L.pc()):
                R.expect(True, 'duplicates', what, loc)
                return
            R.expect(implied(vspec(L, 'duplicate_free', ws), L.pc()), 'duplicates', what, loc, 'a duplicate word is not refused')
            return
    ok(R, 'numbering', what, loc, ix, vspec(L, 'numbered', ws), L.pc(), pre, 'word index')
    R.expect(implied(vspec(L, 'duplicate_free', ws), L.pc()), 'duplicates', what, loc, 'a duplicate word is not refused')


def run(R, P):
    CFG['distinct'] = False
    try:
        _run(R, P)
    finally:
        CFG['distinct'] = True
