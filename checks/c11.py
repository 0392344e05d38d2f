"""C11: queries, conversions and exports have no side effect on their inputs."""
from .c10 import *
from ffsa.arrays import SHAPES

RULES = {
    'memory': 'no array handed to or owned by the embeddings is written, on normal and exceptional exits, other than an explicit output buffer',
    'parts': 'vocabulary, n-gram table, norms, metadata, origin and storage read back unchanged after the operation',
    'argument': 'arguments other than the output buffer are unchanged',
}
TECHNIQUE = 'effect analysis: array versions, heap and public read-back after every operation compared with the state before it'
NOTE = 'loops are summarised by version folds; a write is judged by its effect, so writing a value back unchanged is not an alarm'
lookup_pre = pre


def pre(e):
    lookup_pre(e)
    r = random.Random('eff|%d' % e.seed)
    ws = list(e.vals[sym('words', ('list', STR))])
    for n in ('word', 'word2', 'word3'):
        if r.random() < .75:
            e.vals[sym(n, STR)] = r.choice(ws)


PARTS = ('words', 'word_index', 'upper_bound')
IXPARTS = ('ngrams', 'ngram_index', 'min_n', 'max_n', 'upper_bound')


def readback(W, e):
    """everything a user can see of the embeddings"""
    keep = W.st
    W.st = keep.copy()
    tr, ra = W.I.trace, W.I.raises
    try:
        out = {}
        v = W.I.getattr(e, 'vocab', W.st, NODE)
        for n in PARTS:
            out['vocab.' + n] = W.content(W.I.getattr(v, n, W.st, NODE))
        cs = W.I.classes_of(v, W.st)
        if cs and cs[0].name != 'SimpleVocab':
            ix = W.I.getattr(v, 'subword_indexer', W.st, NODE)
            for n in IXPARTS:
                if n.startswith('ngram') and cs[0].name != 'ExplicitVocab':
                    continue
                out['vocab.subword_indexer.' + n] = W.content(W.I.getattr(ix, n, W.st, NODE))
        for n in ('norms', 'metadata', 'origin', 'storage'):
            out[n] = W.content(W.I.getattr(e, n, W.st, NODE))
        return out
    finally:
        W.st = keep
        W.I.trace, W.I.raises = tr, ra


def at(W, st, f):
    keep = W.st
    W.st = st
    try:
        return f()
    finally:
        W.st = keep


def operations(W, e):
    """name -> (call, arrays and other arguments that must not change)"""
    cols = W.attr(e, 'dims')
    q = lambda: W.array('query', (cols,))
    f = sym('path', STR)
    w2, w3 = sym('word2', STR), sym('word3', STR)
    sk = sym('skips', ('set', STR))
    k = W.int('k', 0, 2**31)
    ops = [
        ('embedding', (word,), {}), ('embedding', (word,), {'out': W.array('out', (cols,)), 'default': W.array('default', (cols,))}),
        ('embedding_with_norm', (word,), {}), ('__getitem__', (word,), {}), ('__contains__', (word,), {}), ('__iter__', (), {}), ('__repr__', (), {}),
        ('word_similarity', (word, k), {}), ('embedding_similarity', (q(), k), {'skip': sk}), ('analogy', (word, w2, w3, k), {}), ('analogy', (word, w2, w3, k, sk), {}),
        ('chunks', (), {}), ('write', (f,), {}), ('bucket_to_explicit', (), {}),
    ]
    return ops


WRITERS = ('compat.word2vec.write_word2vec', 'compat.text.write_text', 'compat.text.write_text_dims', 'compat.fasttext.write_fasttext')


def judge(R, P, W, e, r, before, loc, what, allowed=(), args=()):
    R.analysed(W)
    exits = [('', W.st)] if not W.st.dead else []
    exits += [(' (raising %s)' % x.exc, x.st) for x in r.raises]
    for tag, st in exits:
        pcs = [l for l, _ in st.pc]
        own = [s for s in W.I.shapes if s.op == 'sym' and s not in allowed and s not in args]
        for rule, ss in (('memory', own), ('argument', list(args))):
            bad = None
            for s in sorted(ss, key=str):
                now = at(W, st, lambda: W.content(s))
                if now is s:
                    continue
                eq = equal(now, s, pcs, pre=pre, want=30)
                if eq is not True and (bad is None or bad[1] is None):
                    bad = (s, eq, now)
            R.expect(True if bad is None else bad[1], rule, '%s%s' % (what, tag), where(r, bad[0]) or loc if bad else loc, '' if bad is None else '%s is modified' % bad[0].a[0])
        after = at(W, st, lambda: readback(W, e))
        for n in before:
            x, y = before[n], after[n]
            v = True if x is y else equal(y, x, pcs, pre=pre, want=30)
            if v is not True:
                R.expect(v, 'parts', '%s%s: %s' % (what, tag, n), loc, 'was %s, is %s' % (str(x)[:150], str(y)[:150]))
                break
        else:
            R.expect(True, 'parts', '%s%s' % (what, tag), loc, '')


def where(r, s):
    for e in walk_events(r.trace):
        if e.kind == 'mutate' and any(x is s for x in e.d.get('roots', ())):
            return e.loc
    return None


def run(R, P):
    for k in VOCABS:
        for st, kw in (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None}), ('QuantizedArray', {'projection': 'yes', 'norms': 'yes'})):
            if st != 'NdArray' and k not in ('SimpleVocab', 'FastTextVocab'):
                continue
            tag = '%s/%s%s' % (k, st, '+' if kw.get('norms') else '')
            W = World(P)
            e = some_embeddings(W, k, st, True, True, kw)
            names = operations(W, e)
            for j, (m, _, kws) in enumerate(names):
                what = '%s: %s%s' % (tag, m, '(%s)' % ', '.join(kws) if kws else '')
                if m == 'bucket_to_explicit' and k not in ('FinalfusionBucketVocab', 'FastTextVocab'):
                    continue
                with R.group('memory', what):
                    W = World(P)
                    e = some_embeddings(W, k, st, True, True, kw)
                    m, a, kws = operations(W, e)[j]
                    before = readback(W, e)
                    W.I.trace, W.I.raises = [], []
                    r = W.call(e, m, *a, **kws)
                    judge(R, P, W, e, r, before, methloc(P, 'Embeddings', m), what, [kws['out']] if 'out' in kws else [],
                          [x for x in list(a) + [v for n, v in kws.items() if n != 'out'] if x.op == 'sym' and typ(x) not in (STR, INT)])
            for m in ('write',) if st == 'NdArray' or kw.get('norms') else ():
                what = '%s: %s on a big-endian host' % (tag, m)
                with R.group('memory', what):
                    W = World(P, byteorder='big')
                    e = some_embeddings(W, k, st, True, True, kw)
                    before = readback(W, e)
                    r = W.call(e, m, sym('path', STR))
                    judge(R, P, W, e, r, before, methloc(P, 'Embeddings', m), what)
            for m in ('to_explicit', 'subword_indices', 'subwords', 'idx', '__getitem__', '__contains__', '__iter__', '__len__'):
                if m in ('subword_indices', 'subwords') and k == 'SimpleVocab' or m == 'to_explicit' and k not in ('FinalfusionBucketVocab', 'FastTextVocab') or st != 'NdArray':
                    continue
                what = '%s.%s' % (k, m)
                with R.group('memory', what):
                    W = World(P)
                    e = some_embeddings(W, k, st, True, True, kw)
                    before = readback(W, e)
                    v = W.I.getattr(e, 'vocab', W.st, NODE)
                    r = W.call(v, m, *([] if m in ('to_explicit', '__iter__', '__len__') else [word]))
                    judge(R, P, W, e, r, before, methloc(P, k, m), what)
            for name in WRITERS:
                if name.endswith('write_fasttext') and k != 'FastTextVocab':
                    continue
                for host in ('little', 'big') if name.endswith(('word2vec', 'fasttext')) else ('little',):
                  what = '%s: %s%s' % (tag, name.split('.')[-1], ' on a big-endian host' if host == 'big' else '')
                  with R.group('memory', what):
                    W = World(P, byteorder=host)
                    e = some_embeddings(W, k, st, True, True, kw)
                    before = readback(W, e)
                    r = W.func(name, sym('path', STR), e)
                    judge(R, P, W, e, r, before, fnloc(P, PKG + name), what)
