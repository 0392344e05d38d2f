"""Foreign formats: loaders and writers judged on sample files by walking their effect traces."""
import struct
import numpy as np
from .c11 import *
from .build import some_embeddings
from ffsa.replay import Replay, Raised
from ffsa.equiv import Env, NoEval, Oob, DEPTH
from ffsa import arrays as A
from ffsa.interp import walk_events
from fractions import Fraction

LOADERS = {'word2vec': 'compat.word2vec.load_word2vec', 'text': 'compat.text.load_text', 'textdims': 'compat.text.load_text_dims', 'fasttext': 'compat.fasttext.load_fasttext'}
SAVERS = {'word2vec': 'compat.word2vec.write_word2vec', 'text': 'compat.text.write_text', 'textdims': 'compat.text.write_text_dims', 'fasttext': 'compat.fasttext.write_fasttext'}
path_, lossy_ = sym('path', STR), sym('lossy', BOOL)
GIVE_UP = (NoEval, RecursionError, OverflowError, MemoryError)
WORDS = ['a', 'ab', 'é', 'B', 'x\u00a0y', 'ä\u3000b', '\u0085c', '日本', 'a-b', '1', '0.5', '\u2028q', 'q\u00a0', '\u2003w', '-', 'ab\u1680', '\ufeffb']
VECS = {1: [(3,), (-2,), (Fraction(1, 4),), (0,)], 2: [(3, 4), (-6, 8), (0, 2), (Fraction(5, 8), Fraction(-12, 8)), (0, 0), (8, 15)],
        3: [(1, 2, 2), (2, -3, 6), (0, 0, 0), (4, 4, 7), (Fraction(1, 2), 1, 1), (0, -5, 0)]}


def cspec(W, fn, *args):
    q = with_spec(W.prog, 'compat')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


# ------------------------------------------------------------------ loaders
class Loader:
    def __init__(self, P, fmt, host='little'):
        self.P, self.fmt = P, fmt
        self.loc = fnloc(P, PKG + LOADERS[fmt])
        self.W = W = World(P, byteorder=host) if host != 'little' else World(P)
        self.host = host
        r = W.func(LOADERS[fmt], path_, lossy_)
        self.trace = r.trace
        self.dead = W.st.dead
        if not self.dead:
            v = W.I.getattr(r.val, 'vocab', W.st, NODE)
            self.vocab = v
            self.words = W.content(W.attr(v, 'words'))
            self.index = W.content(W.attr(v, 'word_index'))
            self.storage = W.content(W.I.getattr(r.val, 'storage', W.st, NODE))
            self.norms = W.content(W.I.getattr(r.val, 'norms', W.st, NODE))
            self.metadata = W.I.getattr(r.val, 'metadata', W.st, NODE)
            self.val = r.val

    def sample(self, seed, content, lossy=False, extra=()):
        """('raised', exception) or ('ok', words, index, storage, norms, *extra)"""
        e = Env(seed)
        e.vals[lossy_] = lossy
        e.vals[path_] = 'in'
        rp = Replay(self.W.I, e, content, self.host == 'big')
        x = rp.run(self.trace)
        if x is not None:
            return ('raised', x.exc, x.loc)
        return ('ok',) + tuple(e.ev(t) for t in (self.words, self.index, self.storage, self.norms) + tuple(extra))


def rows_of(v):
    v = v if A.is_arr(v) else None
    return None if v is None else tuple(tuple(r) for r in v) if v.ndim == 2 else tuple(v)


def vectors(r, n, cols, zero=True):
    vs = [v for v in VECS[cols] if zero or any(v)]
    return [tuple(Fraction(x) * r.choice((1, 1, 2, Fraction(1, 2))) for x in r.choice(vs)) for _ in range(n)]


def f4(v):
    return b''.join(struct.pack('<f', float(x)) for x in v)


def dec(x):
    return repr(float(x))


def length(v):
    return A.root(sum(x * x for x in v), hash)


def unit(v):
    n = length(v)
    return v if n == 0 else tuple(x / n for x in v)


def file_of(fmt, r, words, vecs, cols):
    """a well-formed file of the format"""
    if fmt == 'word2vec':
        nl = r.choice((b'\n', b'\n', b''))
        return ('%d %d\n' % (len(words), cols)).encode() + b''.join(w.encode('utf-8') + b' ' + f4(v) + nl for w, v in zip(words, vecs))
    sep = r.choice((' ', ' ', '\t', '  '))
    end = r.choice(('\n', '\n', ' \n'))
    body = ''.join(w + sep + sep.join(dec(x) for x in v) + end for w, v in zip(words, vecs))
    if fmt == 'textdims':
        body = '%d %d\n' % (len(words), cols) + body
    return body.encode('utf-8')


def judge_samples(R, rule, what, loc, run, n=40, need=24):
    """run(seed) -> None if fine, text of the counterexample, raises NoEval if not decided"""
    ok_ = 0
    n, need = n * DEPTH, need * DEPTH
    why = 'no sample could be interpreted'
    for s in range(n):
        try:
            d = run(s)
        except Oob:
            d = 'an array access out of range (sample %d)' % s
        except GIVE_UP as x:
            why = 'interpretation gave up: %s' % type(x).__name__
            continue
        if d is not None:
            R.expect(False, rule, what, loc, d[:600])
            return False
        ok_ += 1
    R.expect(True if ok_ >= need else None, rule, what, loc, why)
    return ok_ >= need or None


# ------------------------------------------------------------------ writers
def wpre(e, vk, cols=2):
    r = random.Random('cw|%d' % e.seed)
    n = r.choice((0, 1, 2, 3, 3))
    ws = tuple(r.sample(WORDS, n))
    e.vals[sym('words', ('list', STR))] = ws
    e.vals[lo], e.vals[hi] = r.choice(((1, 2), (2, 3), (3, 3), (3, 6)))
    e.vals[sym('buckets_exp', INT)] = r.choice((0, 1, 2))
    e.vals[sym('n_buckets', INT)] = r.choice((1, 2, 3))
    e.vals[sym('cols', INT)] = cols
    e.vals[sym('quantized_len', INT)] = r.choice((1, 2))
    e.vals[sym('sub_len', INT)] = 2 // e.vals[sym('quantized_len', INT)]
    e.vals[sym('n_centroids', INT)] = 3
    m = r.randint(0, 2)
    e.vals[sym('ngrams', NG)] = tuple(r.sample(['<a', 'a>', 'ab', 'zz', 'b'], m))
    e.vals[sym('ngram_idx', ('list', INT))] = tuple(range(m))
    e.vals[path_] = 'out'


class Saver:
    scales = (1,)

    def __init__(self, P, fmt, vk, st, norms, kw, host='little', given={}):
        self.loc = fnloc(P, PKG + SAVERS[fmt])
        self.W = W = World(P, byteorder=host) if host != 'little' else World(P)
        self.host, self.vk, self.fmt = host, vk, fmt
        e = some_embeddings(W, vk, st, norms, True, kw)
        self.e = e
        self.base = list(W.pc())
        self.words = cspec(W, 'word_list', e)
        self.vecs = cspec(W, 'vectors', e)
        self.cols = cspec(W, 'columns', e)
        W.I.trace = []
        r = W.func(SAVERS[fmt], path_, e, **given)
        self.trace = r.trace
        self.unknown = list(W.I.unknown)

    def sample(self, seed, extra=()):
        e = Env(seed)
        e.scale = self.scales[seed % len(self.scales)]
        wpre(e, self.vk)
        for l in self.base:
            if not e.truth(e.ev(l)):
                raise NoEval()
        rp = Replay(self.W.I, e, b'', self.host == 'big')
        x = rp.run(self.trace)
        outs = list(rp.out.values())
        return x, outs, tuple(e.ev(t) for t in (self.words, self.vecs, self.cols) + tuple(extra)), rp


def vec(v):
    return tuple(v) if A.is_arr(v) or isinstance(v, tuple) else None
