"""C21: import normalises exactly the word rows and keeps their original lengths."""
from .compat import *
from . import c19
from .c10 import Setup, pre as pre_lookup, word

RULES = {
    'unit': 'after loading, every non-zero word row has length one and the same direction as in the file',
    'norms': 'the norm of each word is the length its vector had in the file (for fastText: of its mean with its subwords)',
    'zero': 'a zero vector is loaded as zero vector: no division by a zero length',
    'subwords': 'subword rows are loaded as they are in the file',
    'lookup': 'the lookup of a word whose subword vectors add up to zero gives finite numbers',
}
TECHNIQUE = 'effect traces of the loaders interpreted over sample files with rational vectors, including zero vectors; lookup terms interpreted over storages with zero and cancelling rows'


def finite(vs):
    return all(A.num(x) and x is not A.NAN for x in vs)


def run(R, P):
    for fmt in ('word2vec', 'text', 'textdims'):
        loader(R, P, fmt)
    fasttext(R, P)
    for vk in ('FinalfusionBucketVocab', 'FastTextVocab', 'ExplicitVocab'):
        for m in ('embedding', '__getitem__', 'embedding_with_norm'):
            lookup(R, P, vk, m)


def near(x, y):
    return len(x) == len(y) and all(p is not A.NAN and q is not A.NAN and c19.close(p, q) for p, q in zip(x, y))


def judge_rows(sel, words, vecs, st, nm):
    """what is wrong with the selected aspect of the loaded word rows"""
    if not A.is_arr(st) or not A.is_arr(nm) or st.ndim != 2 or nm.ndim != 1:
        raise NoEval()
    if len(st) < len(vecs) or len(nm) != len(vecs):
        return '%d rows and %d norms for %d words' % (len(st), len(nm), len(vecs))
    for w, v, row, n in zip(words, vecs, st, nm):
        v, row = tuple(v), tuple(row)
        s = list(map(str, v)), list(map(str, row))
        if sel == 'zero' and not any(v) and (not finite(row) or any(row) or not finite((n,)) or n != 0):
            return 'the zero vector of %r becomes %s with norm %s' % (w, s[1], n)
        if sel == 'unit' and any(v) and not near(row, unit(v)):
            return 'the vector %s of %r becomes %s' % (s[0], w, s[1])
        if sel == 'norms' and any(v) and not near((n,), (length(v),)):
            return 'the norm of %s (word %r) is %s' % (s[0], w, n)
    return None


def loader(R, P, fmt):
    with R.group('unit', fmt):
        l = Loader(P, fmt)
        R.analysed(l.W)
        if l.dead:
            R.expect(False, 'unit', fmt, l.loc, 'always fails')
            return
        for sel in ('unit', 'norms', 'zero'):
            def one(seed):
                r = random.Random('c21|%s|%d' % (fmt, seed))
                cols, n = r.choice((1, 2, 3)), r.choice((1, 2, 3, 4))
                words = r.sample(['a', 'ab', 'é', 'B', '日本', '1', '-'], n)
                vecs = vectors(r, n, cols)
                if seed % 3 == 0:
                    vecs = [tuple(Fraction(r.randint(-8, 8), r.choice((1, 4))) for _ in range(cols)) for _ in vecs]
                if sel == 'zero':
                    vecs[r.randrange(n)] = (Fraction(0),) * cols
                v = l.sample(seed, file_of(fmt, r, words, vecs, cols), bool(seed % 2))
                if v[0] == 'raised':
                    return 'fails with %s at %s for vectors %s' % (v[1], v[2], [list(map(str, x)) for x in vecs])
                return judge_rows(sel, words, vecs, v[3], v[4])
            judge_samples(R, sel, fmt, l.loc, one)


def fasttext(R, P):
    with R.group('unit', 'fasttext'):
        l = Loader(P, 'fasttext')
        R.analysed(l.W)
        if l.dead:
            R.expect(False, 'unit', 'fasttext', l.loc, 'always fails')
            return
        sub_t = cspec(l.W, 'subword_lists', l.vocab)
        for sel in ('unit', 'norms', 'zero', 'subwords'):
            def one(seed):
                r = random.Random('c21ft|%d' % seed)
                words, rows, cols, cfg = c19.model(r)
                if not words:
                    words, rows = ['ab'], vectors(r, 1, cols) + rows
                if sel == 'zero':
                    rows = [(Fraction(0),) * cols for _ in rows]
                data = c19.ft_file(words, cfg, rows, cols)
                v = l.sample(seed, data, False, (sub_t,))
                if v[0] == 'raised':
                    return 'fails with %s at %s' % (v[1], v[2])
                st, nm, sub = v[3], v[4], v[5]
                if not isinstance(sub, tuple) or not A.is_arr(st):
                    raise NoEval()
                if sel == 'subwords':
                    for i in range(len(words), len(rows)):
                        if i >= len(st) or not near(tuple(st[i]), rows[i]):
                            return 'subword row %s becomes %s' % (list(map(str, rows[i])), list(map(str, st[i])) if i < len(st) else None)
                    return None
                return judge_rows(sel, words, [c19.mean(rows, i, sub[i]) for i in range(len(words))], st, nm)
            judge_samples(R, sel, 'fasttext', l.loc, one)


def lookup(R, P, vk, m):
    what = '%s: %s' % (vk, m)
    loc = methloc(P, 'Embeddings', m)
    with R.group('lookup', what):
        S = Setup(P, vk)
        W = S.W
        r = W.call(S.e, m, word)
        val, pc = W.content(r.val), W.pc()
        R.analysed(W)
        mat = sym('matrix', ND)
        subs = S.subs
        hit = [0]

        def one(seed):
            e = Env(seed)
            pre_lookup(e)
            e.vals[word] = 'zq'
            e.vals[lo], e.vals[hi] = 2, 3
            if vk == 'ExplicitVocab':
                e.vals[sym('ngrams', NG)], e.vals[sym('ngram_idx', ('list', INT))] = ('zq', '<z', 'q>'), (0, 1, 2)
            for l in pc:
                if not e.truth(e.ev(l)):
                    raise NoEval()
            x = next((t for t in closure(val) if t.op == 'sym' and t.a[0] == 'matrix'), None)
            if x is None:
                raise NoEval()
            a = e.ev(x)
            if not A.is_arr(a):
                raise NoEval()
            a = a.copy()
            s = e.ev(subs)
            if not isinstance(s, tuple) or not s:
                raise NoEval()
            a[len(e.vals[sym('words', ('list', STR))]):] = 0
            if seed % 2 and len(s) == 2 and s[0] != s[1]:
                a[s[0]] = 3
                a[s[1]] = -3
            e = Env(seed)
            pre_lookup(e)
            e.vals[word] = 'zq'
            e.vals[lo], e.vals[hi] = 2, 3
            if vk == 'ExplicitVocab':
                e.vals[sym('ngrams', NG)], e.vals[sym('ngram_idx', ('list', INT))] = ('zq', '<z', 'q>'), (0, 1, 2)
            e.vals[x] = a
            v = e.ev(val)
            if m == 'embedding_with_norm':
                if not isinstance(v, tuple) or len(v) != 2:
                    raise NoEval()
                v, n = v
                if n is A.NAN:
                    return 'norm %s for a zero sum of subwords' % n
            if not A.is_arr(v):
                raise NoEval()
            if not all(A.num(y) for y in v.reshape(-1)):
                raise NoEval()
            if not finite(v.reshape(-1)):
                return 'vector %s for a zero sum of subwords' % list(map(str, v))
        judge_samples(R, 'lookup', what, loc, one, 40, 12)
