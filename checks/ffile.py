"""Sample finalfusion files (encoded here, from the published layout) and loaders interpreted on them."""
from .compat import *
from .exits import CFG
from ffsa.equiv import U

IDS = {'SimpleVocab': 1, 'NdArray': 2, 'FinalfusionBucketVocab': 3, 'QuantizedArray': 4, 'Metadata': 5, 'Norms': 6, 'FastTextVocab': 7, 'ExplicitVocab': 8}
FF_LOADERS = {
    'vocab.load_vocab': VOCABS,
    'vocab.simple_vocab.load_simple_vocab': ('SimpleVocab',),
    'vocab.subword.load_finalfusion_bucket_vocab': ('FinalfusionBucketVocab',),
    'vocab.subword.load_fasttext_vocab': ('FastTextVocab',),
    'vocab.subword.load_explicit_vocab': ('ExplicitVocab',),
    'storage.load_storage': ('NdArray', 'QuantizedArray'),
    'storage.ndarray.load_ndarray': ('NdArray',),
    'storage.quantized.load_quantized_array': ('QuantizedArray',),
    'norms.load_norms': ('Norms',),
    'metadata.load_metadata': ('Metadata',),
}
GRAMS = ['<a', 'a>', 'ab', 'é', 'b>', '日']


def q32(r):
    return Fraction(r.choice((-3, -2, -1, 0, 1, 2, 3, 5)), r.choice((1, 2, 4)))


def strs(ws, idx=None):
    out = b''
    for i, w in enumerate(ws):
        d = w.encode('utf-8')
        out += struct.pack('<I', len(d)) + d + (b'' if idx is None else struct.pack('<Q', idx[i]))
    return out


def flo(vs):
    return b''.join(struct.pack('<f', float(v)) for v in vs)


def pad(pos):
    return b'\0' * (4 - pos % 4)


def chunk(kind, r, pos, rows=None, small=False):
    """(bytes of a chunk starting at pos, its parts)"""
    p = {}
    if kind in VOCABS:
        ws = r.sample(WORDS, r.choice((0, 1, 2, 3)))
        p['words'] = tuple(ws)
        p['word_index'] = {w: i for i, w in enumerate(ws)}
        lo_, hi_ = r.choice(((1, 2), (2, 3), (3, 6)))
        b = struct.pack('<Q', len(ws))
        if kind == 'SimpleVocab':
            body = b + strs(ws)
        elif kind == 'ExplicitVocab':
            gs = r.sample(GRAMS, r.choice((0, 1, 2, 3)))
            ix = [0] if len(gs) == 1 else r.choice(([0, 1], [1, 0], [0, 0])) if len(gs) == 2 else r.choice(([0, 1, 2], [2, 0, 1], [0, 1, 0], [1, 0, 1])) if gs else []
            body = b + struct.pack('<QII', len(gs), lo_, hi_) + strs(ws) + strs(gs, ix)
            p.update(ngrams=tuple(gs), ngram_index=dict(zip(gs, ix)))
        else:
            n = r.choice((1, 2, 3, 4) if small else (1, 2, 5, 21))
            body = b + struct.pack('<III', lo_, hi_, n) + strs(ws)
            p['buckets'] = n
        if kind != 'SimpleVocab':
            p.update(min_n=lo_, max_n=hi_)
    elif kind == 'Metadata':
        t = r.choice(('', 'a = 1\n', 'é = "日"\n'))
        body = t.encode('utf-8')
        p['text'] = t
    elif kind == 'Norms':
        n = r.choice((0, 1, 3)) if rows is None else rows
        vs = [q32(r) for _ in range(n)]
        z = pad(pos + 12 + 12)
        body = struct.pack('<QI', n, 10) + z + flo(vs)
        # the pad is counted from where the length field starts
        z = pad(pos + 4)
        body = struct.pack('<QI', n, 10) + z + flo(vs)
        p['array'] = tuple(vs)
    elif kind == 'NdArray':
        n, c = r.choice((0, 1, 2, 3)) if rows is None else rows, r.choice((1, 2, 3))
        vs = [[q32(r) for _ in range(c)] for _ in range(n)]
        z = pad(pos + 4)
        body = struct.pack('<QII', n, c, 10) + z + b''.join(flo(v) for v in vs)
        p['array'] = tuple(tuple(v) for v in vs)
        p['shape'] = (n, c)
    elif kind == 'QuantizedArray':
        n, ql, nc, sl = r.choice((0, 1, 2, 3)) if rows is None else rows, r.choice((1, 2)), r.choice((2, 3)), r.choice((1, 2))
        pr, nm = r.random() < .5, r.random() < .5
        z = pad(pos + 4)
        d = ql * sl
        proj = [[q32(r) for _ in range(d)] for _ in range(d)]
        sub_ = [[[q32(r) for _ in range(sl)] for _ in range(nc)] for _ in range(ql)]
        nv = [q32(r) for _ in range(n)]
        codes = [[r.randrange(nc) for _ in range(ql)] for _ in range(n)]
        body = struct.pack('<IIIIIQII', pr, nm, ql, d, nc, n, 1, 10) + z
        if pr:
            body += b''.join(flo(v) for v in proj)
        body += b''.join(flo(v) for m in sub_ for v in m)
        if nm:
            body += flo(nv)
        body += bytes(c for v in codes for c in v)
        out = []
        for i, v in enumerate(codes):
            row = [x for q, c in enumerate(v) for x in sub_[q][c]]
            if pr:
                row = [sum(row[k] * proj[j][k] for k in range(d)) for j in range(d)]
            if nm:
                row = [nv[i] * x for x in row]
            out.append(tuple(row))
        p['array'] = tuple(out)
        p['shape'] = (n, d)
    return struct.pack('<IQ', IDS[kind], len(body)) + body, p


def file_with(kinds, r, rows=None):
    """a file with the given chunks; their parts in order"""
    out = b'FiFu' + struct.pack('<II', 0, len(kinds)) + b''.join(struct.pack('<I', IDS[k]) for k in kinds)
    parts = []
    for k in kinds:
        b, p = chunk(k, r, len(out), rows)
        out += b
        parts.append(p)
        if k in VOCABS:
            rows = len(p['words'])
    return out, parts


def positions(kinds, r, rows=None):
    """a file and where its chunks start"""
    out = b'FiFu' + struct.pack('<II', 0, len(kinds)) + b''.join(struct.pack('<I', IDS[k]) for k in kinds)
    at, parts = [], []
    for k in kinds:
        b, p = chunk(k, r, len(out), rows, True)
        at.append(len(out))
        parts.append(p)
        out += b
        if k in VOCABS:
            rows = len(p['words']) + (p['buckets'] if k == 'FastTextVocab' else 2 ** p['buckets'] if k == 'FinalfusionBucketVocab' else 1 + max(list(p['ngram_index'].values()) or [-1]) if k == 'ExplicitVocab' else 0)
            nw = len(p['words'])
        if k in ('NdArray', 'QuantizedArray') and 'nw' in locals():
            rows = nw
    return out, at, parts


def type_fields(kind, at):
    """(offset, supported value) of the element type markers of a chunk"""
    h = at + 12
    return {'NdArray': [(h + 12, 10)], 'Norms': [(h + 8, 10)], 'QuantizedArray': [(h + 28, 1), (h + 32, 10)]}.get(kind, [])


class ChunkLoader:
    """a public loader, analysed once and interpreted on sample files"""

    def __init__(self, P, q, kinds, short=False, args=()):
        self.P, self.q, self.kinds = P, q, kinds
        CFG['full_reads'] = not short
        self.short = short
        try:
            self.W = W = World(P)
            r = W.func(q, path_, *args)
            self.trace, self.val, self.r = r.trace, r.val, r
            self.dead = W.st.dead
            self.parts = {} if self.dead else {k: self.read_back(k, r.val) for k in kinds}
        finally:
            CFG['full_reads'] = True

    def read_back(self, kind, val):
        W = self.W
        keep, tr, ra = W.st, W.I.trace, W.I.raises
        W.st = keep.copy()
        W.I.trace, W.I.raises = [], []
        try:
            out = {}
            g = lambda o, n: W.I.getattr(o, n, W.st, NODE)
            if kind in VOCABS:
                out['words'] = W.content(g(val, 'words'))
                out['word_index'] = W.content(g(val, 'word_index'))
                if kind != 'SimpleVocab':
                    ix = g(val, 'subword_indexer')
                    for n in ('min_n', 'max_n') + (('ngrams', 'ngram_index') if kind == 'ExplicitVocab' else ()):
                        out[n] = W.content(g(ix, n))
                    if kind == 'FinalfusionBucketVocab':
                        out['buckets'] = W.content(g(ix, 'buckets_exp'))
                    if kind == 'FastTextVocab':
                        out['buckets'] = W.content(g(ix, 'n_buckets'))
            elif kind in ('NdArray', 'Norms'):
                out['array'] = W.content(val)
            elif kind == 'QuantizedArray':
                out['array'] = W.content(W.I.call_attr(val, '__array__', [], {}, W.st, NODE))
            return out
        finally:
            W.st = keep
            W.I.trace, W.I.raises = tr, ra

    def sample(self, seed, content, kind):
        e = Env(seed)
        e.vals[path_] = 'in'
        rp = Replay(self.W.I, e, content)
        rp.short = self.short
        x = rp.run(self.trace)
        if x is not None:
            return ('raised', x.exc, x.loc)
        return ('ok', {n: plain(e.ev(t)) for n, t in self.parts[kind].items()})


def plain(v):
    if isinstance(v, U):
        raise NoEval('opaque value')
    if A.is_arr(v):
        return rows_of(v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    return v


def judge(R, rule, tag, loc, L, kind, others, n):
    """every sample file with the chunk among decoys decodes to the chunk's parts; True if all do"""
    und = None
    done = 0
    for s in range(n):
        r = random.Random(s)
        ks = r.sample(others, r.choice((0, 1, 2))) + [kind] + r.sample(others, r.choice((0, 1)))
        c, parts = file_with(ks, r)
        p = parts[ks.index(kind)]
        try:
            o = L.sample(s, c, kind)
        except GIVE_UP as x:
            und = '%s: %s' % (type(x).__name__, x)
            continue
        done += 1
        if o[0] == 'raised':
            R.bad(rule, tag, o[2] or loc, 'a file with chunks %s is rejected with %s' % (', '.join(ks), o[1]))
            return False
        for k in o[1]:
            if o[1][k] != p[k]:
                R.bad(rule, tag, loc, 'from a file with chunks %s, %s is read as %s, written %s' % (', '.join(ks), k, str(o[1][k])[:120], str(p[k])[:120]))
                return False
    R.count('sample files', done)
    R.expect(None if und else True, rule, tag, loc, und or '')
    return und is None


def judge_absent(R, rule, tag, loc, L, others, n):
    und = None
    for s in range(n):
        r = random.Random(s)
        ks = r.sample(others, r.choice((1, 2, 3)))
        c, parts = file_with(ks, r)
        try:
            o = L.sample(s, c, L.kinds[0])
        except GIVE_UP as x:
            und = '%s: %s' % (type(x).__name__, x)
            continue
        if o[0] == 'ok':
            R.bad(rule, tag, loc, 'a file with chunks %s is accepted' % ', '.join(ks))
            return
    R.expect(None if und else True, rule, tag, loc, und or '')


class EmbeddingsLoader:
    """load_finalfusion, analysed once and interpreted on sample files"""

    def __init__(self, P, q='embeddings.load_finalfusion'):
        self.loc = fnloc(P, PKG + q)
        CFG['full_reads'] = False
        try:
            self.W = W = World(P)
            r = W.func(q, path_, FALSE)
            self.trace, self.val = r.trace, r.val
            self.dead = W.st.dead
            if not self.dead:
                g = lambda o, n: W.I.getattr(o, n, W.st, NODE)
                v = g(r.val, 'vocab')
                self.parts = {'words': W.content(g(v, 'words')), 'word_index': W.content(g(v, 'word_index')), 'norms': W.content(g(r.val, 'norms')), 'storage': W.content(g(r.val, 'storage'))}
        finally:
            CFG['full_reads'] = True

    def sample(self, seed, content, parts=()):
        e = Env(seed)
        e.vals[path_] = 'in'
        rp = Replay(self.W.I, e, content)
        rp.short = True
        x = rp.run(self.trace)
        if x is not None:
            return ('raised', x.exc, x.loc)
        return ('ok', {n: plain(e.ev(self.parts[n])) for n in parts})


def valid(ks):
    """a sequence of chunks that makes embeddings"""
    ks = list(ks)
    if ks and ks[0] == 'Metadata':
        ks = ks[1:]
    if not ks or ks[0] not in VOCABS or len(ks) < 2 or ks[1] not in ('NdArray', 'QuantizedArray'):
        return False
    if len(ks) > 3 and ks[2] == 'Norms':
        return None         # what follows complete embeddings is not read
    return ks[2:] in ([], ['Norms'])


def sequence(r, ok):
    while True:
        if ok or r.random() < .6:
            ks = (['Metadata'] if r.random() < .5 else []) + [r.choice(VOCABS), r.choice(('NdArray', 'QuantizedArray'))] + (['Norms'] if r.random() < .5 else [])
        else:
            ks = [r.choice(list(IDS)) for _ in range(r.choice((1, 2, 3, 4)))]
        if not ok:
            x = r.random()
            if x < .4:
                ks[r.randrange(len(ks))] = r.choice(list(IDS))
            elif x < .6:
                r.shuffle(ks)
            elif x < .8:
                ks.insert(r.randrange(len(ks) + 1), r.choice(list(IDS)))
            else:
                ks.pop(r.randrange(len(ks)))
        if ks and valid(ks) == ok:
            return ks
