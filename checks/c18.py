"""C18: word2vec and text exports load back to the same words and vectors."""
import re
from .compat import *

RULES = {
    'target': 'the export opens exactly the given path for writing and nothing else',
    'records': 'one record per known word in vocabulary order: the word in UTF-8 and its vector times its norm, after the row and column count where the format has one',
    'load': 'the loader restores words, their indices, vectors and norms of every well-formed file',
    'space': 'only ASCII white space separates words from vectors',
}
TECHNIQUE = 'effect traces of writers and loaders, interpreted over sample embeddings and files against independently built records'
STORES = (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None}))


def want_cells(fmt, words, vecs, cols):
    out = [('%d %d\n' % (len(words), cols)).encode()]
    for w, v in zip(words, vecs):
        out.append(w.encode('utf-8') + b' ')
        out.extend(('f4', x) for x in v)
        out.append(b'\n')
    res = []
    for c in out:
        if isinstance(c, bytes) and res and isinstance(res[-1], bytes):
            res[-1] += c
        else:
            res.append(c)
    return res


def num(s):
    try:
        return np.float32(float(Fraction(s)))
    except (ValueError, ZeroDivisionError):
        return None


def text_records(fmt, data, words, vecs, cols, sep):
    """None if the text is the records of the words"""
    try:
        t = data.decode('utf-8')
    except UnicodeDecodeError:
        return 'not UTF-8'
    ls = t.split('\n')
    if ls[-1] != '':
        return 'the last line is not terminated'
    ls.pop()
    if fmt == 'textdims':
        if not ls or ls[0].split() != [str(len(words)), str(cols)]:
            return 'first line %r instead of %r' % (ls[:1], '%d %d' % (len(words), cols))
        ls = ls[1:]
    if len(ls) != len(words):
        return '%d records for %d words' % (len(ls), len(words))
    for l, w, v in zip(ls, words, vecs):
        if not l.startswith(w + sep):
            return 'record %r for word %r' % (l, w)
        ns = re.split('[ \t]+', l[len(w + sep):])
        if len(ns) != len(v) or any(not close(x, y) for x, y in zip(ns, v)):
            return 'components %s of %r instead of %s' % (ns, w, [str(y) for y in v])
    return None


def close(x, y):
    """the text names y up to single precision"""
    return num(x) is not None and (num(x) == np.float32(float(y)) or abs(Fraction(x) - y) <= abs(y) * Fraction(8, 10**9))


def run(R, P):
    for fmt in ('word2vec', 'text', 'textdims'):
        for vk in VOCABS:
            for st, kw in STORES:
                for norms in (True, False):
                    for host in ('little', 'big') if fmt == 'word2vec' and st == 'NdArray' else ('little',):
                        writer(R, P, fmt, vk, st, norms, kw, host)
        if fmt != 'word2vec':
            writer(R, P, fmt, 'SimpleVocab', 'NdArray', True, {}, 'little', '\t')
        for host in ('little', 'big') if fmt == 'word2vec' else ('little',):
            loader(R, P, fmt, host)


def writer(R, P, fmt, vk, st, norms, kw, host, sep=' '):
    what = '%s from %s/%s%s%s%s' % (fmt, vk, st, '' if norms else ', no norms', '' if host == 'little' else ', big-endian host', '' if sep == ' ' else ', sep')
    with R.group('records', what):
        s = Saver(P, fmt, vk, st, norms, kw, host, {} if sep == ' ' else {'sep': C(sep)})
        s.scales = (1, 1, Fraction(1, 2**13), 1, 2**9)
        R.analysed(s.W)

        def one(seed):
            x, outs, (words, vecs, cols), rp = s.sample(seed)
            if x is not None:
                return 'fails with %s at %s for words %s' % (x.exc, x.loc, list(words))
            if len(outs) != 1 or rp.opened != [('out', outs[0].mode)]:
                return 'opens %s' % rp.opened
            vecs = [vec(v) for v in vecs]
            if None in vecs or not isinstance(words, tuple):
                raise NoEval()
            got = outs[0].norm()
            if fmt == 'word2vec':
                want = want_cells(fmt, words, vecs, cols)
                return None if got == want else 'writes %s instead of %s' % (got, want)
            if any(not isinstance(c, bytes) for c in got):
                return 'writes raw numbers into a text file'
            d = text_records(fmt, got[0] if got else b'', words, vecs, cols, sep)
            return d and '%s (words %s)' % (d, list(words))
        judge_samples(R, 'records', what, s.loc, one)
        opens = [e for e in walk_events(s.trace) if e.kind == 'open']
        R.expect(None if not opens else len(opens) == 1 and opens[0].d['path'] is path_, 'target', what, s.loc, 'opens %s' % [str(e.d['path']) for e in opens])


def loader(R, P, fmt, host):
    what = fmt + ('' if host == 'little' else ', big-endian host')
    with R.group('load', what):
        l = Loader(P, fmt, host)
        R.analysed(l.W)
        if l.dead:
            R.expect(False, 'load', what, l.loc, 'always fails')
            return
        for rule, pool in (('load', ['a', 'ab', 'é', 'B', '日本', '1', '0.5', '-']), ('space', WORDS)):
            def one(seed):
                r = random.Random('cl|%s|%d' % (fmt, seed))
                cols = r.choice((1, 2, 3))
                n = r.choice((1, 1, 2, 3, 4)) if fmt == 'text' else r.choice((0, 1, 2, 3, 4))
                words = r.sample(pool, n)
                vecs = vectors(r, n, cols)
                data = file_of(fmt, r, words, vecs, cols)
                v = l.sample(seed, data, bool(seed % 2))
                if v[0] == 'raised':
                    return 'fails with %s at %s for the file %r' % (v[1], v[2], data)
                _, ws, ix, st, nm = v
                if not A.is_arr(st) or not A.is_arr(nm):
                    raise NoEval()
                if ws != tuple(words):
                    return 'restores words %r instead of %r' % (ws, words)
                if isinstance(ix, dict) and ix != {w: i for i, w in enumerate(words)}:
                    return 'restores indices %r' % (ix,)
                if st.shape != (n, cols):
                    return 'restores a matrix of shape %s instead of %s' % (st.shape, (n, cols))
                if rows_of(nm) != tuple(length(x) for x in vecs):
                    return 'restores norms %s of %s' % (rows_of(nm), vecs)
                back = [tuple(x * m for x in row) for row, m in zip(st, nm)]
                if back != vecs:
                    return 'restores vectors %s instead of %s' % (back, vecs)
                return None
            judge_samples(R, rule, what, l.loc, one)
