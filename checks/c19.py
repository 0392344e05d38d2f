"""C19: fastText import and export."""
from .compat import *

RULES = {
    'layout': 'an exported file is magic, version 12, configuration, dictionary and one input matrix of the declared shape, in fastText\'s order and widths',
    'undo': 'exported word rows are the original word vectors: norm and averaging undone, subword rows as they are',
    'vocab': 'import restores the words in order and the bucket count and n-gram lengths of the configuration',
    'average': 'import gives each word the mean of its own vector and its subword vectors and leaves the subword rows untouched',
    'config': 'configuration entries keep their names and positions',
    'refuse': 'files that are not supported word models (other magic or version, labels, pruned, quantized) are refused',
}
TECHNIQUE = 'effect traces of load_fasttext and write_fasttext, interpreted over sample models and files against independently built fastText records'
MAGIC = 793712314
KEYS = ('dims', 'window_size', 'epoch', 'min_count', 'ns', 'word_ngrams', 'loss', 'model', 'buckets', 'min_n', 'max_n', 'lr_update_rate', 'sampling_threshold')
LOSS, MODEL = ('HierarchicalSoftmax', 'NegativeSampling', 'Softmax'), ('CBOW', 'SkipGram', 'Supervised')
FT_WORDS = ['a', 'ab', 'é', 'B b', 'x\u00a0y', '日本語', 'abc', '</s>', ' c', '\u0085']


def ft_file(words, cfg, rows, cols, **odd):
    """a fastText model; cfg: the 12 integers and the double"""
    out = struct.pack('<ii', odd.get('magic', MAGIC), odd.get('version', 12)) + struct.pack('<12id', *cfg)
    out += struct.pack('<iiiqq', len(words), len(words), odd.get('labels', 0), 77, odd.get('prune', -1))
    for w in words:
        out += w.encode('utf-8') + b'\0' + struct.pack('<qb', 5, odd.get('type', 0))
    out += struct.pack('<?qq', odd.get('quant', False), len(rows), cols)
    return out + b''.join(f4(r) for r in rows)


def model(r):
    cols = r.choice((1, 2, 3))
    buckets = r.choice((1, 2, 3, 5))
    lo_, hi_ = r.choice(((1, 2), (2, 3), (3, 3), (3, 6), (7, 7)))
    n = r.choice((0, 1, 2, 3))
    words = r.sample(FT_WORDS, n)
    rows = vectors(r, n + buckets, cols)
    loss, mod = r.choice((1, 2, 3)), r.choice((1, 2))
    cfg = [cols, 5, 7, 3, 4, 1, loss, mod, buckets, lo_, hi_, 100, 0.5]
    return words, rows, cols, cfg


def close(x, y):
    x, y = Fraction(x), Fraction(y)
    return abs(x - y) <= Fraction(1, 10**9) * max(1, abs(x), abs(y))


def closev(x, y):
    return len(x) == len(y) and all(A.num(p) and A.num(q) and close(p, q) for p, q in zip(x, y))


def run(R, P):
    for st, kw in (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None})):
        for norms in (True, False):
            for host in ('little', 'big') if st == 'NdArray' else ('little',):
                writer(R, P, st, norms, kw, host)
    for host in ('little', 'big'):
        loader(R, P, host)


def writer(R, P, st, norms, kw, host):
    what = 'FastTextVocab/%s%s%s' % (st, '' if norms else ', no norms', '' if host == 'little' else ', big-endian host')
    with R.group('layout', what):
        s = Saver(P, 'fasttext', 'FastTextVocab', st, norms, kw, host)
        R.analysed(s.W)
        rows_t = cspec(s.W, 'all_rows', s.e)
        sub_t = cspec(s.W, 'subword_lists', W_vocab(s.W, s.e))
        nm_t = cspec(s.W, 'norm_list', s.e)
        ix_t = cspec(s.W, 'indexer', W_vocab(s.W, s.e))

        def parts(seed):
            x, outs, (words, vecs, cols, rows, ix, sub, nm), rp = s.sample(seed, (rows_t, ix_t, sub_t, nm_t))
            if x is not None:
                return 'fails with %s at %s for words %s' % (x.exc, x.loc, list(words)), None, None, None
            if len(outs) != 1:
                return 'opens %s' % rp.opened, None, None, None
            if not isinstance(ix, tuple) or not isinstance(rows, tuple):
                raise NoEval()
            cells = outs[0].norm()
            head = struct.pack('<ii', MAGIC, 12) + struct.pack('<12id', cols, 0, 0, 0, 0, 1, 1, 1, *ix, 0, 0.0)
            head += struct.pack('<iiiqq', len(words), len(words), 0, 0, -1)
            for w in words:
                head += w.encode('utf-8') + b'\0' + struct.pack('<qb', 0, 0)
            head += struct.pack('<?qq', False, len(rows), cols)
            rows = [vec(v) for v in rows]
            if None in rows or not isinstance(sub, tuple) or not isinstance(nm, tuple):
                raise NoEval()
            orig = [original(rows, i, sub[i], nm[i]) if i < len(words) else v for i, v in enumerate(rows)]
            return None, cells, head, [y for v in orig for y in v]

        def layout(seed):
            d, cells, head, rows = parts(seed)
            if d:
                return d
            if cells[0] != head:
                return 'writes %r instead of %r' % (cells[0], head)
            if any(not isinstance(c, tuple) or c[0] != 'f4' for c in cells[1:]) or len(cells) - 1 != len(rows):
                return 'writes %d matrix entries instead of %d single-precision numbers' % (len(cells) - 1, len(rows))

        def undo(seed):
            d, cells, head, rows = parts(seed)
            if d:
                return d
            got = [c[1] for c in cells if isinstance(c, tuple)]
            if not closev(got, rows):
                return 'writes rows %s instead of %s' % ([str(x) for x in got], [str(x) for x in rows])
        judge_samples(R, 'layout', what, s.loc, layout)
        judge_samples(R, 'undo', what, s.loc, undo)


def original(rows, i, sub, norm):
    """the word's own vector, given its mean with its subwords"""
    v = [x * norm * (len(sub) + 1) for x in rows[i]]
    for j in sub:
        v = [x - y for x, y in zip(v, rows[j])]
    return v


def mean(rows, i, sub):
    vs = [rows[i]] + [rows[j] for j in sub]
    return [sum(x) / Fraction(len(vs)) for x in zip(*vs)]


def W_vocab(W, e):
    return W.I.getattr(e, 'vocab', W.st, NODE)


def loader(R, P, host):
    what = 'import' + ('' if host == 'little' else ', big-endian host')
    with R.group('vocab', what):
        l = Loader(P, 'fasttext', host)
        R.analysed(l.W)
        if l.dead:
            R.expect(False, 'vocab', what, l.loc, 'always fails')
            return
        sub_t = cspec(l.W, 'subword_lists', l.vocab)
        ix_t = cspec(l.W, 'indexer', l.vocab)
        md_t = l.W.content(l.W.content(l.metadata))

        def load(seed, odd={}, lossy=False):
            r = random.Random('ft|%d' % seed)
            words, rows, cols, cfg = model(r)
            data = ft_file(words, cfg, rows, cols, **odd)
            e = Env(seed)
            e.vals[lossy_], e.vals[path_] = lossy, 'in'
            x = Replay(l.W.I, e, data, host == 'big')
            x = x.run(l.trace)
            return words, rows, cols, cfg, data, e, x

        def vocab(seed):
            words, rows, cols, cfg, data, e, x = load(seed)
            if x is not None:
                return 'fails with %s at %s for the file %r' % (x.exc, x.loc, data)
            if e.ev(l.words) != tuple(words):
                return 'restores words %r instead of %r' % (e.ev(l.words), words)
            if e.ev(ix_t) != tuple(cfg[8:11]):
                return 'restores buckets and n-gram lengths %s instead of %s' % (e.ev(ix_t), cfg[8:11])

        def average(seed):
            words, rows, cols, cfg, data, e, x = load(seed)
            if x is not None:
                return 'fails with %s' % x.exc
            sub = e.ev(sub_t)
            st, nm = e.ev(l.storage), e.ev(l.norms)
            if not A.is_arr(st) or not A.is_arr(nm) or not isinstance(sub, tuple):
                raise NoEval()
            if st.shape != (len(rows), cols):
                return 'restores a matrix of shape %s instead of %s' % (st.shape, (len(rows), cols))
            if len(nm) != len(words):
                return '%d norms for %d words' % (len(nm), len(words))
            for i, w in enumerate(words):
                v = mean(rows, i, sub[i])
                if not closev([x * nm[i] for x in st[i]], v):
                    return 'word %r has vector %s (norm %s) instead of %s' % (w, list(map(str, st[i])), nm[i], list(map(str, v)))
            for i in range(len(words), len(rows)):
                if not closev(list(st[i]), rows[i]):
                    return 'subword row %d becomes %s instead of %s' % (i - len(words), list(map(str, st[i])), list(map(str, rows[i])))

        def config(seed):
            words, rows, cols, cfg, data, e, x = load(seed)
            if x is not None:
                return 'fails with %s' % x.exc
            md = e.ev(md_t)
            if md is None:
                return 'the configuration is not kept'
            md = getattr(md, 'f', md)
            md = next((v for v in md.values() if isinstance(v, dict)), md) if isinstance(md, dict) and not set(md) & set(KEYS) else md
            if not isinstance(md, dict):
                raise NoEval()
            want = dict(zip(KEYS, cfg))
            want['loss'], want['model'] = LOSS[cfg[6] - 1], MODEL[cfg[7] - 1]
            if {k: v for k, v in md.items()} != {k: A.norm_scalar(Fraction(v)) if isinstance(v, float) else v for k, v in want.items()}:
                return 'configuration %s instead of %s' % (md, want)
        judge_samples(R, 'vocab', what, l.loc, vocab)
        judge_samples(R, 'average', what, l.loc, average)
        judge_samples(R, 'config', what, l.loc, config)
        if host == 'little':
            for name, odd in (('another magic', {'magic': MAGIC + 1}), ('version 11', {'version': 11}), ('version 13', {'version': 13}), ('labels', {'labels': 1}), ('pruned', {'prune': 3}),
                              ('pruned to nothing', {'prune': 0}), ('quantized', {'quant': True}), ('a label entry', {'type': 1}), ('an entry of an unknown type', {'type': 2})):
                def refuse(seed):
                    words, rows, cols, cfg, data, e, x = load(seed, odd)
                    if 'type' in odd and not words:
                        return None
                    return None if x is not None else 'accepts a file with %s' % name
                judge_samples(R, 'refuse', name, l.loc, refuse)
