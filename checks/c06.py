"""C06: wrong magic, version, type, kind or feature markers are rejected."""
from .common import *
from .exits import *
from ffsa.models import SIZES
from .compat import *
from . import ffile as ff
from .ffile import FF_LOADERS as LOADERS8

RULES = {
    'marker': 'assuming a marker field of the layout has a value other than the supported one, an exit fires on every path through the reader (coverage of the exit conditions)',
    'kind': 'assuming a chunk of a kind that is not allowed at this place, an exit fires on every path through the embeddings loader',
    'sample': 'a sample file with one wrong marker (magic, version, element type, chunk kind, order of chunks) is refused, the sound file is not',
    'present': 'the reader unpacks the marker fields of the layout',
}
TECHNIQUE = 'exit-condition coverage of every marker field; effect traces of the loaders interpreted on sample files with wrong markers'
CSZ = {'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'c': 1, 'x': 1}


def fields(trace):
    """fields in file order: (path, term, event) of every scalar unpacked from the file"""
    out = []
    for path, e in nested(trace):
        if e.kind == 'unpack':
            fmt = e.d['fmt']
            if fmt.op != 'sfmt':
                out.append((path, None, e))
                continue
            off = e.d['offset'].a[0] if e.d['offset'].op == 'c' else 0
            for n, c in fmt.a[1]:
                if not isinstance(n, int):
                    n = n.a[0] if isinstance(n, T) and n.op == 'c' else None
                if n is None:
                    out.append((path, None, e))
                    break
                for _ in range(n):
                    if c != 'x':
                        out.append((path, mk('fld', e.d['buf'], C(off), c, fmt.a[0]), e))
                    off += CSZ.get(c, 1)
    return out


def find_fld(pool, t):
    """the field term as the analysis built it (offset/order spelled alike)"""
    for x in pool:
        if x.op == 'fld' and x.a[0] is t.a[0] and x.a[1] is t.a[1]:
            return x
    return None


def pool_of(r, W):
    s = set()
    for e in walk_events(r.trace):
        for l, _ in e.pc:
            s |= set(closure(l))
        for v in e.d.values():
            if isinstance(v, T):
                s |= set(closure(v))
    for l, _ in W.st.pc:
        s |= set(closure(l))
    return s


def check_marker(R, r, what, loc, path, wrong, involved, ev, rule='marker', good=()):
    """wrong: literals describing an unsupported marker"""
    conds = []
    for p, g, l, x in exit_list(r):
        if p == path:
            c = and_(*g) if g else TRUE
            if has(c, involved):
                conds.append(c)
    ctx = [l for l, t in ev.pc]
    v = decide(ctx + wrong, conds, wrong)
    if v is None and good:
        # no exit that a supported value would not meet as well: accepted whenever a supported one is
        res = lambda t, k: {subst(c, {t: k}) for c in conds} - {FALSE}
        t, k = [(l.a[0], l.a[1]) if l.a[1].op == 'c' else (l.a[1], l.a[0]) for l in wrong][0]
        if any(res(t, k) <= res(t, C(g)) for g in good):
            v = False
    late = any(p != path and has(and_(*g) if g else TRUE, involved) for p, g, l, x in exit_list(r))
    if v is False and late:
        v = None
    R.expect(v, rule, what, loc, 'no exit fires when the marker is unsupported')


def marker_checks(R, P, tag, run, magic=None, scal=()):
    with R.group('marker', tag):
        W = World(P)
        r = run(W)
        R.analysed(W)
        pool = pool_of(r, W)
        if magic:
            for path, e in nested(r.trace):
                if e.kind == 'read':
                    B = e.d['buf']
                    check_marker(R, r, '%s: magic' % tag, e.loc, path, [not_(eq(B, C(magic)))], B, e)
                    break
            else:
                R.und('present', tag, None, 'no read')
        fs = fields(r.trace)
        for idx, name, wrong in scal:
            if idx >= len(fs) or any(f is None for _, f, _ in fs[:idx + 1]):
                R.und('present', '%s: %s' % (tag, name), fs[0][2].loc if fs else None, 'marker field not found')
                continue
            path, f, e = fs[idx]
            t = find_fld(pool, f) or f
            check_marker(R, r, '%s: %s' % (tag, name), e.loc, path, wrong(t), t, e)
            R.count('markers')


def isnt(v):
    return lambda t: [not_(eq(t, C(v)))]


def true(t):
    return [t if typ(t) == BOOL else not_(eq(t, ZERO))]


def corrupt(data, at, fmt, value):
    n = struct.calcsize(fmt)
    return data[:at] + struct.pack(fmt, value) + data[at + n:]


def wrong_versions(r):
    return r.choice((1, 2, 255, 256, 65536, 2**24, 2**31, 2**32 - 1))


def wrong_type(r, good):
    while True:
        v = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 266, 2**31))
        if v != good:
            return v


def samples(R, P):
    n = 24 if R.tier == 'quick' else 120
    with R.group('sample', 'load_finalfusion'):
        L = ff.EmbeddingsLoader(P)
        R.analysed(L.W)
        tags = [('wrong magic', 0), ('wrong version', 1), ('wrong element type', 2), ('chunks that do not make embeddings', 3), ('unknown chunk kind', 4), ('sound files', 5)]
        for name, mode in tags:
            def run_(s):
                r = random.Random('c06|%s|%d' % (name, s))
                ks = ff.sequence(r, mode != 3)
                rows = None
                data, at, _ = ff.positions(ks, r)
                if mode == 0:
                    i = r.randrange(4)
                    data = data[:i] + bytes([data[i] ^ r.choice((1, 32, 128))]) + data[i + 1:]
                elif mode == 1:
                    data = corrupt(data, 4, '<I', wrong_versions(r))
                elif mode == 2:
                    k, good = r.choice([(p, g) for kind, p0 in zip(ks, at) for p, g in ff.type_fields(kind, p0)])
                    data = corrupt(data, k, '<I', wrong_type(r, good))
                elif mode == 4:
                    data = corrupt(data, r.choice(at), '<I', r.choice((0, 9, 10, 255, 2**31)))
                o = L.sample(s, data)
                if mode == 5:
                    return None if o[0] == 'ok' else 'a file with chunks %s is refused with %s' % (', '.join(ks), o[1])
                return None if o[0] == 'raised' else 'a file with chunks %s and %s is accepted' % (', '.join(ks), name)
            judge_samples(R, 'sample', 'load_finalfusion: ' + name, L.loc, run_, n, n)
    for q, kinds in LOADERS8.items():
        with R.group('sample', q):
            L = ff.ChunkLoader(P, q, kinds, True)
            R.analysed(L.W)
            for kind in kinds:
                for name, mode in (('wrong magic', 0), ('wrong version', 1), ('wrong element type', 2)):
                    if mode == 2 and not ff.type_fields(kind, 0):
                        continue

                    def run_(s):
                        r = random.Random('c06|%s|%s|%d' % (kind, name, s))
                        ks = [kind] if s % 2 else [r.choice([k for k in ff.IDS if k not in kinds]), kind]
                        data, at, _ = ff.positions(ks, r)
                        if mode == 0:
                            i = r.randrange(4)
                            data = data[:i] + bytes([data[i] ^ r.choice((1, 32, 128))]) + data[i + 1:]
                        elif mode == 1:
                            data = corrupt(data, 4, '<I', wrong_versions(r))
                        else:
                            k, good = r.choice(ff.type_fields(kind, at[-1]))
                            data = corrupt(data, k, '<I', wrong_type(r, good))
                        o = L.sample(s, data, kind)
                        return None if o[0] == 'raised' else 'a file with chunks %s and %s is accepted' % (', '.join(ks), name)
                    judge_samples(R, 'sample', '%s: %s, %s' % (q, kind, name), fnloc(P, PKG + q), run_, n // 2, n // 2)


def run(R, P):
    samples(R, P)
    F = file_sym('inp')
    path = sym('path', STR)
    marker_checks(R, P, 'Header.read_chunk', lambda W: W.static('Header', 'read_chunk', F), b'FiFu', [(0, 'format version', isnt(0))])
    for m in ('read_chunk', 'mmap_chunk'):
        marker_checks(R, P, 'NdArray.' + m, lambda W: W.static('NdArray', m, F), None, [(2, 'element type', isnt(10))])
        marker_checks(R, P, 'QuantizedArray.' + m, lambda W: W.static('QuantizedArray', m, F), None, [(6, 'code type', isnt(1)), (7, 'element type', isnt(10))])
    marker_checks(R, P, 'Norms.read_chunk', lambda W: W.static('Norms', 'read_chunk', F), None, [(1, 'element type', isnt(10))])
    marker_checks(R, P, 'Metadata.read_chunk', lambda W: W.static('Metadata', 'read_chunk', F), None, [(0, 'chunk kind', isnt(5))])
    marker_checks(R, P, 'load_finalfusion', lambda W: W.func('embeddings.load_finalfusion', path, sym('mmap', BOOL)), b'FiFu', [(0, 'format version', isnt(0))])
    marker_checks(R, P, 'find_chunk', lambda W: W.func('io.find_chunk', F, sym('wanted', ('list', INT))), b'FiFu', [(0, 'format version', isnt(0))])
    with R.group('kind', 'load_finalfusion'):
        W = World(P)
        r = W.func('embeddings.load_finalfusion', path, FALSE)
        pool = pool_of(r, W)
        hd, seen = [], set()
        for p, t, e in fields(r.trace):
            if id(e) not in seen and not p and t is not None and e.d['fmt'].a[1] == ((ONE, 'I'), (ONE, 'Q')) or e.d['fmt'].a[1] == ((1, 'I'), (1, 'Q')):
                if id(e) not in seen:
                    hd.append((p, find_fld(pool, t) or t, e))
            seen.add(id(e))
        allowed = [('first chunk', {1, 3, 5, 7, 8}), ('metadata chunk', {5}), ('chunk after metadata', {1, 3, 7, 8}), ('storage chunk', {2, 4}), ('last chunk', {6})]
        if len(hd) != len(allowed):
            R.und('kind', 'load_finalfusion', fnloc(P, PKG + 'embeddings.load_finalfusion'), '%d chunk headers found' % len(hd))
        else:
            for (name, ok), (p, t, e) in zip(allowed, hd):
                for k in range(0, 10):
                    if k not in ok:
                        check_marker(R, r, 'load_finalfusion: %s of kind %d' % (name, k), e.loc, p, [eq(t, C(k))], t, e, 'kind', ok)
    # fastText: magic, version, 12 ints + double, vocab size / words / labels, tokens, prune index, per word frequency / type, quantized flag, rows, cols
    marker_checks(R, P, 'load_fasttext', lambda W: W.func('compat.fasttext.load_fasttext', path, sym('lossy', BOOL)), None,
                  [(0, 'magic', isnt(793712314)), (1, 'version', isnt(12)), (17, 'prediction labels', isnt(0)),
                   (19, 'pruned vocabulary', lambda t: [le(ZERO, t)]), (21, 'entry type', isnt(0)), (22, 'quantized matrix', true)])
