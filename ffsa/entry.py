"""Symbolic component instances: built by analysing the real constructors."""
import sys
from .terms import *
from .terms import _closure as closure
from .program import Program, AnalysisBroken
from .arrays import SHAPES, ELEMS
from .models import verval
from .interp import Interp, State, Frame, walk_events, Result

sys.setrecursionlimit(30000)
PKG = 'finalfusion.'
Q = {
    'SimpleVocab': PKG + 'vocab.simple_vocab.SimpleVocab',
    'FinalfusionBucketVocab': PKG + 'vocab.subword.FinalfusionBucketVocab',
    'FastTextVocab': PKG + 'vocab.subword.FastTextVocab',
    'ExplicitVocab': PKG + 'vocab.subword.ExplicitVocab',
    'NdArray': PKG + 'storage.ndarray.NdArray',
    'QuantizedArray': PKG + 'storage.quantized.QuantizedArray',
    'PQ': PKG + 'storage.quantized.PQ',
    'Norms': PKG + 'norms.Norms',
    'Metadata': PKG + 'metadata.Metadata',
    'Header': PKG + 'io.Header',
    'ChunkIdentifier': PKG + 'io.ChunkIdentifier',
    'TypeId': PKG + 'io.TypeId',
    'Embeddings': PKG + 'embeddings.Embeddings',
    'FinalfusionHashIndexer': PKG + 'subword.hash_indexers.FinalfusionHashIndexer',
    'FastTextIndexer': PKG + 'subword.hash_indexers.FastTextIndexer',
    'ExplicitIndexer': PKG + 'subword.explicit_indexer.ExplicitIndexer',
    'Format': PKG + 'scripts.util.Format',
}
VOCABS = ('SimpleVocab', 'FinalfusionBucketVocab', 'FastTextVocab', 'ExplicitVocab')
CHUNKS = VOCABS + ('NdArray', 'QuantizedArray', 'Norms', 'Metadata')


class _Node:
    lineno = 0


NODE = _Node()


class World:
    """one analysis session over the current tree"""

    def __init__(self, prog=None, **kw):
        self.prog = prog or Program()
        self.I = Interp(self.prog, **kw)
        self.st = State()
        fr = Frame(0, None, self.prog.modules['finalfusion.io'])
        self.I.frames.append(fr)
        self.st.frames[0] = {}

    # -- symbols
    def int(self, name, lo=None, hi=None):
        s = sym(name, INT)
        if lo is not None or hi is not None:
            RNG[s] = (lo, hi)
        return s

    def array(self, name, shape, dtype='=f4', opt=False):
        s = sym(name, ('opt', ND) if opt else ND)
        self.I.shapes[s] = tuple(shape)
        SHAPES[s] = (tuple(shape), dtype)
        self.I.dtypes[s] = mk('dtype', dtype)
        if not opt:
            NOTNONE.add(s)
        return s

    def words(self, name='words'):
        return sym(name, ('list', STR))

    def cls(self, name):
        return self.prog.cls(Q.get(name, name))

    def new(self, name, *args, **kw):
        """analyse the constructor call"""
        c = self.cls(name)
        r = self.I.instantiate(c, list(args), kw, self.st, NODE)
        if self.st.dead:
            raise AnalysisBroken('constructor of %s always fails' % name)
        return r

    # -- components
    def indexer(self, kind, tag=''):
        lo = self.int('min_n' + tag, 1, 2**32 - 1)
        hi = self.int('max_n' + tag, 1, 2**32 - 1)
        if kind == 'FinalfusionHashIndexer':
            return self.new(kind, self.int('buckets_exp' + tag, 0, 64), lo, hi)
        if kind == 'FastTextIndexer':
            return self.new(kind, self.int('n_buckets' + tag, 1, 2**32 - 1), lo, hi)
        ng = self.words('ngrams' + tag)
        idx = sym('ngram_idx' + tag, ('list', INT))
        b = fresh_binder()
        it = item(idx, b)
        d = qdmap(len_(ng), b, item(ng, b), it)
        return self.new(kind, ng, lo, hi, d)

    def vocab(self, kind, tag=''):
        w = self.words('words' + tag)
        if kind == 'SimpleVocab':
            return self.new(kind, w)
        ix = {'FinalfusionBucketVocab': 'FinalfusionHashIndexer', 'FastTextVocab': 'FastTextIndexer', 'ExplicitVocab': 'ExplicitIndexer'}[kind]
        return self.new(kind, w, self.indexer(ix, tag))

    def ndarray(self, rows=None, cols=None, name='matrix', dtype='=f4'):
        rows = rows if rows is not None else self.int('rows', 0, 2**40)
        cols = cols if cols is not None else self.int('cols', 1, 2**32 - 1)
        return self.new('NdArray', self.array(name, (rows, cols), dtype))

    def norms(self, n=None, dtype='=f4', name='norms'):
        n = n if n is not None else self.int('n_norms', 0, 2**40)
        return self.new('Norms', self.array(name, (n,), dtype))

    def pq(self, projection='opt'):
        ql, nc, sub = self.int('quantized_len', 1, 2**20), self.int('n_centroids', 1, 2**20), self.int('sub_len', 1, 2**20)
        qs = self.array('subquantizers', (ql, nc, sub))
        rl = mul(ql, sub)
        proj = NONE if projection is None else self.array('projection', (rl, rl), opt=projection == 'opt')
        return self.new('PQ', qs, proj), ql, rl

    def quantized(self, projection='opt', norms='opt', n=None):
        pq, ql, rl = self.pq(projection)
        n = n if n is not None else self.int('n_rows', 0, 2**40)
        qe = self.array('codes', (n, ql), '|u1')
        ELEMS[qe] = (0, sub(self.int('n_centroids', 1, 2**20), ONE))
        nm = NONE if norms is None else self.array('qnorms', (n,), opt=norms == 'opt')
        return self.new('QuantizedArray', pq, qe, nm)

    def metadata(self, name='metadata'):
        m = sym(name, ('dict', STR, ANY))
        NOTNONE.add(m)
        return self.new('Metadata', m)

    def component(self, kind):
        if kind in VOCABS:
            return self.vocab(kind)
        return {'NdArray': self.ndarray, 'QuantizedArray': self.quantized, 'Norms': self.norms, 'Metadata': self.metadata,
                'Header': self.header}[kind]()

    def header(self):
        return self.new('Header', sym('chunk_ids', ('list', INT)))

    def storage(self, kind, rows, **kw):
        return self.ndarray(rows=rows, **kw) if kind == 'NdArray' else self.quantized(n=rows, **kw)

    # -- running
    def call(self, recv, name, *args, **kw):
        """analyse recv.name(*args) and return a Result with the events of this call"""
        I, st = self.I, self.st
        I.trace, I.raises = [], []
        v = I.call_attr(recv, name, list(args), kw, st, NODE)
        return Result(v, st, I.trace, I.raises, I)

    def attr(self, recv, name):
        self.I.trace, self.I.raises = [], []
        v = self.I.getattr(recv, name, self.st, NODE)
        return self.I.snap(v, self.st)

    def func(self, qual, *args, **kw):
        I, st = self.I, self.st
        I.trace, I.raises = [], []
        fn = self.prog.func(PKG + qual if not qual.startswith(PKG) else qual)
        v = I.call_func(fn, list(args), kw, st, NODE)
        return Result(v, st, I.trace, I.raises, I)

    def static(self, cname, name, *args, **kw):
        I, st = self.I, self.st
        I.trace, I.raises = [], []
        c = self.cls(cname)
        f = I.getattr(mk('class', c.qual), name, st, NODE)
        v = I.call_value(f, list(args), kw, st, NODE)
        return Result(v, st, I.trace, I.raises, I)

    def snap(self, t):
        return self.I.snap(t, self.st)

    def content(self, t):
        """snapshot with the current contents of arrays modified in place"""
        t = self.I.snap(t, self.st)
        m = {}
        for r, v in self.st.ver.items():
            if v is ZERO or not has(t, r):
                continue
            nv = verval(r, v)
            m[r] = nv if nv is not None else mk('ver', r, r, v)
        if not m:
            return t
        memo = {}

        def go(x):
            """only memory still shared: what was computed from it before keeps its value"""
            y = memo.get(x)
            if y is None:
                if x in m:
                    y = m[x]
                elif x.op in ('view', 'reshape', 'T', 'asarray', 'newax', 'iter', 'item'):
                    z = go(x.a[0]) if x.op != 'item' or not self.I.fancy(x.a[1]) else x.a[0]
                    y = x if z is x.a[0] else rebuild(x, lambda c: z if c is x.a[0] else c)
                elif x.op in ('obj', 'tuple', 'list', 'ite', 'first', 'dict', 'cat', 'map', 'ref'):
                    y = rebuild(x, go)
                elif x.op == 'ver' and x.a[1] in m:
                    y = self.I.use(x, self.st)
                else:
                    y = x
                memo[x] = y
            return y
        return go(t)

    def pc(self):
        return [l for l, t in self.st.pc]


def file_sym(name='file'):
    return sym(name, FILE)


def pos_sym(name='file'):
    return sym('%%pos:%s' % name, INT)
