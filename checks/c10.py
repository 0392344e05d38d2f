"""C10: the lookup contract."""
from .c09 import *
from .build import some_embeddings

RULES = {
    'vector': 'embedding(), embedding_with_norm() and item access of a found word are its row, or the normalised sum of its subword rows',
    'norm': 'embedding_with_norm() returns the stored norm of a known word and the pre-normalisation length of a subword sum',
    'missing': 'a word without index gives the default, item access raises KeyError exactly then',
    'out': 'an output buffer holds exactly the returned vector (or default), is itself returned, and is untouched if nothing was found and no default given',
    'contract': 'idx() of the vocabulary is the word index, else the non-empty subword indices, else the default',
    'iterate': 'iterating yields each word with its own row and norm in vocabulary order',
}
TECHNIQUE = 'value numbering of every lookup path against a reference lookup'
EMPTY = mk('tuple')


def pre(e):
    pre_pos(e)
    r = random.Random('lk|%d' % e.seed)
    if len(str(e.vals[word])) > 4:
        e.vals[word] = r.choice(('abc', 'aé', 'abab'))
        e.vals[lo], e.vals[hi] = 2, 3
    ws = list(e.vals[sym('words', ('list', STR))])
    m = r.random()
    if m < .45:
        e.vals[word] = r.choice((ws[0], ws[0], ws[-1], r.choice(ws)))
    elif m < .55:
        e.vals[word] = 'a'
        e.vals[lo], e.vals[hi] = 4, 5
    e.vals[sym('buckets_exp', INT)] = r.choice((0, 1, 2))
    e.vals[sym('n_buckets', INT)] = r.choice((1, 2, 3, 5))
    e.vals[sym('cols', INT)] = r.choice((2, 3))
    e.vals[sym('quantized_len', INT)] = 2
    e.vals[sym('sub_len', INT)] = r.choice((1, 2))
    e.vals[sym('n_centroids', INT)] = 3


def lspec(W, fn, *args):
    q = with_spec(W.prog, 'lookup')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


class Setup:
    def __init__(self, P, k, st='NdArray', norms=True, kw={}):
        W = self.W = World(P)
        W.I.keyerrors = True
        self.e = some_embeddings(W, k, st, norms, False, kw)
        self.words = sym('words', ('list', STR))
        self.v = W.I.getattr(self.e, 'vocab', W.st, NODE)
        self.s = W.I.getattr(self.e, 'storage', W.st, NODE)
        self.norms = W.I.getattr(self.e, 'norms', W.st, NODE)
        self.subs = EMPTY if k == 'SimpleVocab' else W.content(W.call(self.v, 'subword_indices', word).val)
        self.found = lspec(W, 'found', self.words, self.subs, word)
        self.base = list(W.st.pc)

    def vector(self):
        return lspec(self.W, 'vector', self.words, self.s, self.subs, word)

    def length(self):
        return lspec(self.W, 'length', self.words, self.s, self.norms, self.subs, word)

    def pc(self):
        return self.W.pc()


def cmp(R, rule, what, loc, got, want, A, why):
    ok(R, rule, what, loc, got, want, A, pre, why, 40)


def run(R, P):
    CFG['distinct'] = True
    for k in VOCABS:
        for st, kw in (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None})):
            if st != 'NdArray' and k not in ('SimpleVocab', 'FastTextVocab'):
                continue
            for has_norms in (True, False):
                if st != 'NdArray' and not has_norms:
                    continue
                tag = '%s/%s/%s' % (k, st, 'norms' if has_norms else 'no norms')
                one(R, P, k, st, kw, has_norms, tag)
    contract(R, P)


def one(R, P, k, st, kw, has_norms, tag):
    E = 'Embeddings'
    default = lambda W: W.array('default', (W.int('cols'),))
    methods = [('embedding', ()), ('__getitem__', ())] + ([('embedding_with_norm', ())] if has_norms else [])
    for m, a in methods:
        what = '%s: %s' % (tag, m)
        loc = methloc(P, E, m)
        with R.group('vector', what):
            S = Setup(P, k, st, has_norms, kw)
            W = S.W
            want = S.vector()
            wl = S.length() if has_norms else None
            f0 = S.found
            r = W.call(S.e, m, word)
            R.analysed(W)
            got = W.content(r.val)
            A = S.pc() + [f0]
            if m == 'embedding_with_norm':
                cmp(R, 'vector', what, loc, item(got, ZERO), want, A, 'vector of a found word')
                cmp(R, 'norm', what, loc, item(got, ONE), wl, A, 'norm of a found word')
            else:
                cmp(R, 'vector', what, loc, got, want, A, 'vector of a found word')
            if m == '__getitem__':
                ks = [x for x in r.raises]
                bad = [x for x in ks if x.exc != 'KeyError']
                R.expect(None if bad else True, 'missing', '%s: exceptions' % what, bad[0].loc if bad else loc, 'raises %s' % (bad[0].exc if bad else ''))
                acc = and_(*[l for l, t in W.st.pc[len(S.base):]])
                cmp(R, 'missing', '%s: KeyError exactly if not found' % what, loc, acc, f0, [l for l, _ in S.base], 'item access returns/raises against the rule')
            else:
                cmp(R, 'missing', '%s: None' % what, loc, got, NONE, S.pc() + [not_(f0)], 'nothing found, no default')
    for m in [m for m, _ in methods if m != '__getitem__']:
        loc = methloc(P, E, m)
        for with_out in (False, True):
            for with_def in (False, True):
                if not (with_out or with_def):
                    continue
                what = '%s: %s(%s)' % (tag, m, ', '.join(['out'] * with_out + ['default'] * with_def))
                with R.group('out' if with_out else 'missing', what):
                    S = Setup(P, k, st, has_norms, kw)
                    W = S.W
                    want = S.vector()
                    wl = S.length() if has_norms else None
                    f0 = S.found
                    cols = S.W.attr(S.e, 'dims')
                    args = {}
                    out = d = None
                    if with_out:
                        out = args['out'] = W.array('out', (cols,))
                    if with_def:
                        d = W.array('default', (cols,))
                        dn = sym('default_norm', FLOAT)
                        args['default'] = tup(d, dn) if m == 'embedding_with_norm' else d
                    r = W.call(S.e, m, word, **args)
                    R.analysed(W)
                    raw = W.snap(r.val)
                    got = W.content(r.val)
                    pair = m == 'embedding_with_norm'
                    vec = item(got, ZERO) if pair else got
                    A = S.pc()
                    cmp(R, 'vector', what, loc, vec, want, A + [f0], 'vector of a found word')
                    if pair:
                        cmp(R, 'norm', what, loc, item(got, ONE), wl, A + [f0], 'norm of a found word')
                    miss = A + [not_(f0)]
                    if with_def:
                        cmp(R, 'missing', what, loc, vec, d, miss, 'default of a missing word')
                        if pair:
                            cmp(R, 'missing', what + ' norm', loc, item(got, ONE), dn, miss, 'default norm')
                    else:
                        cmp(R, 'missing', what, loc, got, NONE, miss, 'nothing found, no default')
                    if with_out:
                        buf = W.content(out)
                        cmp(R, 'out', what + ': buffer', loc, buf, want, A + [f0], 'contents of the buffer after a successful lookup')
                        cmp(R, 'out', what + ': buffer when missing', loc, buf, d if with_def else out, miss, 'contents of the buffer after a failed lookup')
                    if with_def:
                        cmp(R, 'out', what + ': default untouched', loc, W.content(d), d, A, 'the default array')
    what = '%s: iteration' % tag
    with R.group('iterate', what):
        S = Setup(P, k, st, has_norms, kw)
        W = S.W
        loc = methloc(P, E, '__iter__')
        b = i_
        r = W.call(S.e, '__iter__')
        got = W.content(r.val)
        R.analysed(W)
        n = len_(S.words)
        row = W.content(W.I.subscript(S.s, b, W.st, NODE))
        want = [item(S.words, b), row] + ([W.content(W.I.subscript(S.norms, b, W.st, NODE))] if has_norms else [])
        one = got.op == 'zip' and len(got.a) == len(want)
        A = S.pc() + [lt(b, n)]
        cmp(R, 'iterate', what, loc, len_(got), n, S.pc(), 'number of items')
        for j, x in enumerate(want):
            cmp(R, 'iterate', '%s, component %d' % (what, j), loc, item(item(got, b), C(j)), x, A, 'item of the iteration')


def contract(R, P):
    d = sym('default_idx', INT)
    for k in VOCABS:
        for has_d in (False, True):
            with R.group('contract', k):
                W, v = vocab(P, k)
                words = sym('words', ('list', STR))
                loc = methloc(P, k, 'idx')
                subs = EMPTY if k == 'SimpleVocab' else W.content(W.call(v, 'subword_indices', word).val)
                w = lspec(W, 'index_of', words, word)
                r = W.call(v, 'idx', word, *([d] if has_d else []))
                got = W.content(r.val)
                R.analysed(W)
                want = ite(not_(isnone(w)), w, ite(eq(len_(subs), ZERO), d if has_d else NONE, subs))
                cmp(R, 'contract', '%s.idx%s' % (k, ' with default' if has_d else ''), loc, got, want, W.pc(), 'index')
