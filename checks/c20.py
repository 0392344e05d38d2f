"""C20: malformed UTF-8 is an error by default and replaced only on request."""
from .compat import *
from . import c19
from .cli import *
from .c23 import TOOLS, TO, one as one_call, same as same_arg
from . import compat as _c

RULES = {
    'strict': 'with lossy off, a file with malformed UTF-8 in a word is refused by the loader, and text files of the tools are opened with strict decoding',
    'replace': 'with lossy on, malformed UTF-8 becomes the replacement character and everything else is loaded as usual',
    'same': 'the lossy switch does not change what is loaded from well-formed files',
    'finalfusion': 'words, n-grams and metadata in finalfusion files are decoded as strict UTF-8',
    'encoding': 'text files are opened as UTF-8, not in the encoding of the locale',
    'flag': 'the command-line tools pass their lossy flag to the loader unchanged',
    'default': 'lossy decoding is off unless requested',
}
TECHNIQUE = 'effect traces of the loaders interpreted over sample files with malformed UTF-8; decode and open events of every reader, writer and tool; call arguments of the tools'
BAD = [b'\xff', b'a\xc3', b'\xc3(', b'\xed\xa0\x80', b'b\xf0\x9f\x98', b'\x80x', b'\xe6\x97', b'\xc0\xaf', b'\xfe\xfe', b'q\xf5z', b'\xf4\x90\x80\x80']
GOOD = ['a', 'ab', 'é', 'B', '日本', '1', '0.5', '-', '😀', 'x\u00a0y']


def data_of(fmt, r, words, vecs, cols):
    if fmt == 'fasttext':
        cfg = [cols, 5, 7, 3, 4, 1, 1, 1, 2, 3, 6, 100, 0.5]
        out = struct.pack('<ii', c19.MAGIC, 12) + struct.pack('<12id', *cfg) + struct.pack('<iiiqq', len(words), len(words), 0, 77, -1)
        for w in words:
            out += w + b'\0' + struct.pack('<qb', 5, 0)
        rows = list(vecs) + vectors(r, 2, cols)
        return out + struct.pack('<?qq', False, len(rows), cols) + b''.join(f4(v) for v in rows)
    if fmt == 'word2vec':
        return ('%d %d\n' % (len(words), cols)).encode() + b''.join(w + b' ' + f4(v) + b'\n' for w, v in zip(words, vecs))
    body = b''.join(w + b' ' + b' '.join(_c.dec(x).encode() for x in v) + b'\n' for w, v in zip(words, vecs))
    return ('%d %d\n' % (len(words), cols)).encode() + body if fmt == 'textdims' else body


def run(R, P):
    for fmt in LOADERS:
        loader(R, P, fmt)
        text_opens(R, P, 'load ' + fmt, fnloc(P, PKG + LOADERS[fmt]), lambda: (lambda W: (W, W.func(LOADERS[fmt], path_, lossy_)))(World(P)))
    for fmt in SAVERS:
        def save():
            W = World(P)
            e = some_embeddings(W, 'FastTextVocab' if fmt == 'fasttext' else 'SimpleVocab', 'NdArray', True, True, {})
            W.I.trace = []
            return W, W.func(SAVERS[fmt], path_, e)
        text_opens(R, P, 'write ' + fmt, fnloc(P, PKG + SAVERS[fmt]), save)
    for kind in ('SimpleVocab', 'ExplicitVocab', 'FinalfusionBucketVocab', 'FastTextVocab', 'Metadata'):
        native(R, P, kind)
    for name, opt, src, fmts in TOOLS:
        loc = main_loc(P, name)
        for f in fmts:
            what = 'ffp-%s %s' % (name, f)
            given = {opt: C(f), 'include': lst()}
            if name in TO:
                given[TO[name]] = C('finalfusion')
            if f != 'finalfusion':
                with R.group('flag', what):
                    W, r = tool(P, name, given)
                    R.analysed(W)
                    load = one_call(R, W, r, 'flag', what, loc, LOAD.values(), LOAD[f])
                    if load is not None:
                        same_arg(R, 'flag', what, loc, load[1].get('lossy', NONE), sym('args.lossy', BOOL), 'the lossy flag')
            text_opens(R, P, what, loc, lambda: tool(P, name, given))
            text_errors(R, P, what, loc, lambda: tool(P, name, dict(given, lossy=FALSE)))
            text_errors(R, P, what, loc, lambda: tool(P, name, dict(given, lossy=TRUE)), True)


def loader(R, P, fmt):
    with R.group('strict', fmt):
        l = Loader(P, fmt)
        R.analysed(l.W)
        if l.dead:
            R.expect(False, 'strict', fmt, l.loc, 'always fails')
            return

        def make(seed, bad):
            r = random.Random('c20|%s|%d' % (fmt, seed))
            cols = r.choice((1, 2, 3))
            n = r.choice((1, 2, 3))
            ws = [w.encode('utf-8') for w in r.sample(GOOD, n)]
            if bad:
                ws[r.randrange(n)] = r.choice(BAD)
            vs = vectors(r, n, cols)
            return ws, vs, data_of(fmt, r, ws, vs, cols)

        def strict(seed):
            ws, vs, data = make(seed, True)
            v = l.sample(seed, data, False)
            if v[0] != 'raised':
                return 'loads words %r from %r' % (v[1], ws)

        def replace(seed, bad=True):
            ws, vs, data = make(seed, bad)
            v = l.sample(seed, data, True)
            want = tuple(w.decode('utf-8', 'replace') for w in ws)
            if len(set(want)) != len(want):
                return None
            if v[0] == 'raised':
                return 'fails with %s at %s for words %r' % (v[1], v[2], ws)
            if v[1] != want:
                return 'loads words %r from %r instead of %r' % (v[1], ws, want)
            if not A.is_arr(v[3]) or not A.is_arr(v[4]):
                raise NoEval()
            if fmt != 'fasttext' and [tuple(x * m for x in row) for row, m in zip(v[3], v[4])] != vs:
                return 'loads other vectors for words %r' % (ws,)

        def same_(seed):
            ws, vs, data = make(seed, False)
            p, q = l.sample(seed, data, True), l.sample(seed, data, False)
            if p[0] != q[0] or p[0] == 'ok' and (p[1:3] != q[1:3] or rows_of(p[3]) != rows_of(q[3])):
                return 'differs for words %r: %r and %r' % (ws, p[:2], q[:2])
        judge_samples(R, 'strict', fmt, l.loc, strict)
        judge_samples(R, 'replace', fmt, l.loc, replace)
        judge_samples(R, 'same', fmt, l.loc, same_)
        # the default of the switch
        W = World(P)
        r = W.func(LOADERS[fmt], path_)
        d = Loader.__new__(Loader)
        d.W, d.host, d.trace = W, 'little', r.trace
        if W.st.dead:
            R.expect(False, 'default', fmt, l.loc, 'always fails')
            return
        v = W.I.getattr(r.val, 'vocab', W.st, NODE)
        d.words = W.content(W.attr(v, 'words'))
        d.index = d.storage = d.norms = ZERO

        def default(seed):
            ws, vs, data = make(seed, True)
            v = d.sample(seed, data, False)
            if v[0] != 'raised':
                return 'loads words %r from %r' % (v[1], ws)
        judge_samples(R, 'default', fmt, l.loc, default)


def is_utf8(e):
    return cval(e).lower().replace('_', '-') in ('utf-8', 'utf8') if isc(e) and isinstance(cval(e), str) else False if e is NONE else None


def text_opens(R, P, what, loc, get):
    with R.group('encoding', what):
        W, r = get()
        R.analysed(W)
        for e in walk_events(r.trace):
            if e.kind != 'open':
                continue
            m = e.d['mode']
            if not isc(m):
                R.expect(None, 'encoding', what, e.loc, 'mode %s' % m)
            elif 'b' not in cval(m):
                R.expect(is_utf8(e.d['encoding']), 'encoding', what, e.loc, 'opened with encoding %s' % e.d['encoding'])
            else:
                R.expect(True, 'encoding', what, e.loc, '')


def text_errors(R, P, what, loc, get, lossy=False):
    with R.group('replace' if lossy else 'strict', what):
        W, r = get()
        R.analysed(W)
        for e in walk_events(r.trace):
            if e.kind == 'open' and isc(e.d['mode']) and 'b' not in cval(e.d['mode']):
                x = e.d['errors']
                if lossy:
                    # files not covered by the switch stay strict
                    R.expect(x is NONE or cval(x) in ('strict', 'replace') if isc(x) else None, 'replace', what + ' with lossy on', e.loc, 'text opened with errors=%s' % x)
                    continue
                R.expect(x is NONE or cval(x) == 'strict' if isc(x) else None, 'strict', what + ' with lossy off', e.loc, 'text opened with errors=%s' % x)


def native(R, P, kind):
    with R.group('finalfusion', kind):
        l = Loaded(P, kind)
        R.analysed(l.R)
        loc = methloc(P, kind, 'read_chunk')
        ds = {}
        for e in walk_events(l.r.trace):
            if e.kind == 'decode':
                ds[e.loc] = (e.d['encoding'], e.d['errors'])
        if not ds:
            R.expect(None, 'finalfusion', kind, loc, 'no decoding found')
        for where, (en, er) in sorted(ds.items()):
            u, s = is_utf8(en), er is C('strict') if isc(er) else None
            R.expect(False if u is False or s is False else None if u is None or s is None else True, 'finalfusion', kind, where, 'decoded as %s with errors=%s' % (en, er))
