"""C05: truncated files are reported."""
from .common import *
from .exits import *
from ffsa.interp import INF
from .compat import *
from . import c19, ffile as ff
from .ffile import FF_LOADERS as LOADERS8

RULES = {
    'read': 'for every read of a reader: if it delivers nothing, or fewer bytes/items than requested, an exit that escapes the loader fires (decided on the branch conditions of all exits), '
            'or the data is consumed by an operation that fails on short data (struct.unpack, reshape to the full size, np.memmap)',
    'row': 'a text row with another number of components than the matrix is wide cannot be stored: an exit fires or the assignment itself cannot fit',
    'rows': 'when a text file has fewer rows than declared, an exit fires',
    'truncate': 'a sample file cut anywhere before the end of the data it declares is refused (the effect trace of the loader interpreted on the cut file, end of file visible)',
    'present': 'the reader reads from its file at all',
}
TECHNIQUE = 'exit-condition coverage of every read site'

NORMS_ID = 6


def refs(t, x):
    return has(t, x)


def hypo_read(e):
    """[(label, substitution function, assumption literals)] for a short read"""
    B = e.d['buf']
    n = e.d['n']
    out = []

    def empty(t):
        return subst(t, {B: C(b'')})
    out.append(('no data', empty, [not_(eq(n, ZERO))]))
    if not (n.op == 'c' and n.a[0] == 1):
        S = sym('%short', BYTES)
        L = sub(n, ONE)

        def part(t):
            t = subst(t, {B: S})
            t = subst(t, {mk('len', S): L})
            m = {x: FALSE for x in closure(t) if x.op == 'eq' and S in x.a and any(y.op == 'c' and isinstance(y.a[0], bytes) and n.op == 'c' and len(y.a[0]) != n.a[0] - 1 for y in x.a)}
            return subst(t, m) if m else t
        out.append(('partial data', part, [not_(le(n, ONE))]))
    return out


def hypo_arr(e):
    A, n = e.d['arr'], e.d['count']
    g = mk('got', A)
    return [('no items', lambda t: subst(t, {g: ZERO}), [not_(eq(n, ZERO))]),
            ('one item missing', lambda t: subst(t, {g: sub(n, ONE)}), [not_(le(n, ZERO))]),
            ('a single item', lambda t: subst(t, {g: ONE}), [not_(eq(n, ONE)), not_(le(n, ONE))])]


def declared(assume, conds):
    """a norms chunk that the header declares is data the file declares"""
    at = []
    for c in conds:
        atoms(c, at)
    return [a for a in at if a.op == 'in' and a.a[0].op == 'c' and a.a[0].a[0] == NORMS_ID]


def reshaped(e, r, W):
    A, n = e.d['arr'], e.d['count']
    pool = [W.content(r.val)]
    for x in walk_events(r.trace):
        for v in x.d.values():
            if isinstance(v, T):
                pool.append(v)
    for p in pool:
        if not has(p, A):
            continue
        for t in closure(p):
            if t.op == 'reshape' and t.a[1].op == 'tuple':
                base = t.a[0]
                while base.op in ('view', 'byteswap', 'asarray'):
                    base = base.a[0]
                if base is A:
                    dims = t.a[1].a
                    if any(d is C(-1) for d in dims):
                        continue
                    if equal(mul(*dims) if len(dims) > 1 else dims[0], n) is True:
                        return True
    return False


def next_round(c, key):
    """the condition looks at what this read delivered in an earlier iteration"""
    return key.op == 'rdb' and any(y.op == 'rdb' and y is not key and y.a[:2] == key.a[:2] for y in closure(c))


def short_reads(R, W, r, tag, optional_eof=lambda e: False):
    exits = exit_list(r)
    unp = [(p, x) for p, x in nested(r.trace) if x.kind == 'unpack']
    seen = 0
    for path, e in nested(r.trace):
        if e.kind not in ('read', 'rarr'):
            continue
        seen += 1
        key = e.d['buf'] if e.kind == 'read' else e.d['arr']
        ctx = [l for l, t in e.pc]
        for label, f, assume in (hypo_read(e) if e.kind == 'read' else hypo_arr(e)):
            if label == 'no data' and optional_eof(e):
                continue
            what = '%s: %s delivered by the %s' % (tag, label, 'read' if e.kind == 'read' else 'array read')
            conds, opaque = [], False
            for p, g, loc, x in exits:
                if x is e:
                    continue
                c = and_(*g) if g else TRUE
                if p[:len(path)] == path and len(p) == len(path) or p == path[:len(p)]:
                    if refs(c, key):
                        conds.append(f(c))
                elif refs(c, key):
                    opaque = True
                if e.kind == 'read' and p[:len(path)] == path and next_round(c, key):
                    opaque = True
                if p != path and p == path[:len(p)] and refs(c, key):
                    opaque = True
            if e.kind == 'read':
                for p, x in unp:
                    if x.d['buf'] is key and p == path:
                        conds.append(f(and_(*[l for l, t in x.pc if t == 'branch'])))
            base = [f(c) if refs(c, key) else c for c in ctx] + assume
            brk = path[-1].d.get('brk') if path else None
            extra = declared(base, conds)
            v = decide(base + extra, conds, assume + extra)
            if v is True and brk is not None and brk is not FALSE and refs(brk, key):
                b = f(brk)
                v = True if b is FALSE else decide(base + [b], conds, assume + [b])
            if v is not True and e.kind == 'rarr' and reshaped(e, r, W):
                v = True
            if v is True:
                R.ok('read', what, e.loc)
            elif v is None or opaque:
                R.und('read', what, e.loc, 'exit conditions too complex')
            else:
                R.bad('read', what, e.loc, 'no exit fires, the loader goes on with incomplete data')
    return seen


def root_split(v):
    t = v
    while isinstance(t, T):
        if t.op in ('resplit', 'split'):
            return t
        if t.op == 'map':       # e.g. map(float, parts[1:])
            return next((x.a[0] for x in closure(t.a[1]) if x.op == 'item' and x.a[0].op in ('resplit', 'split')), None)
        t = t.a[0] if t.a and isinstance(t.a[0], T) else None
    return None


def text_rows(R, W, r, tag, dims):
    exits = exit_list(r)
    done = 0
    for path, e in nested(r.trace):
        if e.kind != 'store' or not path:
            continue
        v = e.d['value']
        parts = root_split(v)
        if parts is None or not isinstance(v, T) or len_(v) is None:
            continue
        tgt = e.d['target']
        root = tgt
        while root.op in ('item', 'view'):
            root = root.a[0]
        shp = W.I.shapes.get(root) or (root.a[1] if root.op == 'alloc' else None)
        if isinstance(shp, T):
            shp = shp.a
        if not shp or len(shp) < 2:
            R.und('row', tag, e.loc, 'matrix shape unknown')
            continue
        n = shp[1]
        done += 1
        N = sym('%width', INT)
        RNG[N] = (3, 2**40)
        LP = len_(parts)
        ln = len_(v)
        width = {n: N}
        for y in closure(n):
            # the width is an offset from some length: that length follows
            if y is not n and typ(y) == INT and y.op not in ('c', 'poly') and sub(n, y).op == 'c':
                width = {y: sub(N, sub(n, y))}
        for label, k in (('one component', C(2)), ('a component too many', add(N, C(2))), ('a component too few', N)):
            def f(t):
                return subst(subst(t, width), {LP: k})
            conds = []
            for p, g, loc, x in exits:
                if p == path:
                    conds.append(f(and_(*g) if g else TRUE))
            w = f(ln)
            fits = [eq(w, N), eq(w, ONE)]
            base = [f(l) for l, t in e.pc if t == 'branch'] + [or_(*fits)]
            res = decide(base, conds, base)
            if res is True:
                R.ok('row', '%s: row with %s' % (tag, label), e.loc)
            elif res is None:
                R.und('row', '%s: row with %s' % (tag, label), e.loc, 'exit conditions too complex')
            else:
                R.bad('row', '%s: row with %s' % (tag, label), e.loc, 'is stored without complaint')
    if not done:
        R.und('row', tag, None, 'no row assignment found')
    if dims:
        lines = [x for e in walk_events(r.trace) if e.kind == 'readlines' for x in [e.d['lines']]]
        allocs = [e for e in walk_events(r.trace) if e.kind == 'alloc' and len(e.d['arr'].a) > 1]
        if len(lines) == 1 and allocs:
            a = allocs[0].d['arr']
            shp = W.I.shapes.get(a) or allocs[0].d['shape']
            rows = shp.a[0] if isinstance(shp, T) else shp[0]
            NR = sym('%rows', INT)
            RNG[NR] = (1, 2**40)

            def g(t):
                return subst(subst(t, {rows: NR}), {mk('len', lines[0]): sub(NR, ONE)})
            conds = [g(and_(*x[1]) if x[1] else TRUE) for x in exits if x[0] == ()]
            conds = [C(True) if c is TRUE else c for c in conds]
            res = always([], conds)
            fin = [g(l) for l, t in W.st.pc]
            if res is True or any(c is FALSE for c in fin):
                R.ok('rows', tag, allocs[0].loc)
            else:
                d = None
                for c in fin:
                    if implied(not_(c)) is True:
                        d = True
                R.expect(True if d else (False if all(not has(c, NR) for c in fin) else None), 'rows', tag, allocs[0].loc, 'a file with fewer rows than declared is accepted')
        else:
            R.und('rows', tag, None, 'line structure not recognised')


def session(R, P, tag, run, opt=lambda e: False):
    old = CFG['full_reads']
    CFG['full_reads'] = False
    try:
        with R.group('read', tag):
            W = World(P)
            r = run(W)
            R.analysed(W)
            if W.I.unknown:
                R.count('unmodelled', len(W.I.unknown))
            n = short_reads(R, W, r, tag, opt)
            R.count('read_sites', n)
            return W, r, n
    finally:
        CFG['full_reads'] = old


def cut(R, P, tag, loc, W, file_of, run, n, rule='truncate'):
    """files cut short must be refused"""
    und, done = None, 0
    for s in range(n):
        data, ends = file_of(random.Random('cut|%s|%d' % (tag, s)), s)
        for k in ends:
            try:
                x = run(s, data[:k])
            except Oob:
                x = True
            except GIVE_UP as g:
                und = '%s: %s' % (type(g).__name__, g)
                continue
            if x is None:
                R.bad(rule, tag, loc, 'a file of %d bytes is accepted%s: %r' % (len(data), ' after being cut to %d' % k if k < len(data) else '', data[:k][-60:]))
                return
            done += 1
    R.count('cut files', done)
    R.expect(None if und else True, rule, tag, loc, und or '')


def cuts(R, P):
    n = 4 if R.tier == 'quick' else 12
    for q, kinds in LOADERS8.items():
        with R.group('truncate', q):
            L = ff.ChunkLoader(P, q, kinds, True)
            R.analysed(L.W)
            for kind in kinds:
                def file_of(r, s):
                    for _ in range(20):
                        ks = [kind] if s % 2 else [r.choice(['Metadata', 'NdArray', 'SimpleVocab'])] + [kind]
                        if ks[0] in kinds and len(ks) > 1:
                            ks = [kind]
                        data, parts = ff.file_with(ks, r)
                        if parts[-1]['array'] if 'array' in parts[-1] else any(parts[-1].values()):
                            break
                    lo = 0
                    ends = range(lo, len(data)) if len(data) < 140 else sorted(r.sample(range(lo, len(data)), 120))
                    return data, ends

                def run_(s, data):
                    return None if L.sample(s, data, kind)[0] == 'ok' else True
                cut(R, P, '%s: cut files with %s' % (q, kind), fnloc(P, PKG + q), L.W, file_of, run_, n)
    for fmt in ('word2vec', 'textdims', 'fasttext'):
        with R.group('truncate', fmt):
            old = CFG['full_reads']
            CFG['full_reads'] = False
            try:
                l = Loader(P, fmt)
            finally:
                CFG['full_reads'] = old
            R.analysed(l.W)

            def file_of(r, s):
                if fmt == 'fasttext':
                    while True:
                        words, rows, cols, cfg = c19.model(r)
                        if words or s % 2:
                            break
                    data = c19.ft_file(words, cfg, rows, cols)
                    return data, range(len(data)) if len(data) < 100 else sorted(r.sample(range(len(data)), 100))
                cols = r.choice((1, 2, 3))
                ws = r.sample([w for w in WORDS if w.strip() == w and len(w.split()) == 1], r.choice((1, 2, 3)))
                vs = vectors(r, len(ws), cols)
                if fmt == 'word2vec':
                    body = [w.encode('utf-8') + b' ' + f4(v) for w, v in zip(ws, vs)]
                    data = ('%d %d\n' % (len(ws), cols)).encode() + b'\n'.join(body)
                    return data, range(len(data))
                data = ('%d %d\n' % (len(ws), cols)).encode() + b''.join((w + ' ' + ' '.join(dec(x) for x in v) + '\n').encode('utf-8') for w, v in zip(ws, vs))
                # up to the last blank: then at least one component is missing
                return data, range(data.rstrip(b'\n').rfind(b' ') + 1)

            def run_(s, data):
                e = Env(s)
                e.vals[lossy_], e.vals[path_] = False, 'in'
                rp = Replay(l.W.I, e, data)
                rp.short = True
                x = rp.run(l.trace)
                if x is not None:
                    return True
                for t in (l.words, l.index, l.storage, l.norms):
                    ff.plain(e.ev(t))
                return None
            cut(R, P, 'load ' + fmt, l.loc, l.W, file_of, run_, n + 4)


def ragged(R, P):
    for fmt in ('text', 'textdims'):
        with R.group('row', fmt + ' sample files'):
            l = Loader(P, fmt)
            R.analysed(l.W)

            def file_of(r, s):
                cols = r.choice((2, 3))
                ws = r.sample([w for w in WORDS if w.strip() == w and len(w.split()) == 1], 3)
                vs = [[dec(x) for x in v] for v in vectors(r, 3, cols)]
                at = r.choice((0, 1, 2)) if fmt == 'textdims' else r.choice((1, 2))
                k = r.choice((1, cols - 1, cols + 1, 2 * cols, 0))
                vs[at] = (vs[at] * 2)[:k]
                data = ('3 %d\n' % cols if fmt == 'textdims' else '') + ''.join(' '.join([w] + v) + '\n' for w, v in zip(ws, vs))
                data = data.encode('utf-8')
                return data, [len(data)]

            def run_(s, data):
                return None if l.sample(s, data)[0] == 'ok' else True
            cut(R, P, 'load %s: row of another width' % fmt, l.loc, l.W, file_of, run_, 20, 'row')


def run(R, P):
    cuts(R, P)
    ragged(R, P)
    for kind in CHUNKS + ('Header',):
        x = session(R, P, '%s.read_chunk' % kind, lambda W: W.static(kind, 'read_chunk', file_sym('inp')))
        if x and not x[2]:
            R.und('present', kind, methloc(P, kind, 'read_chunk'), 'no read found')
    for kind in ('NdArray', 'QuantizedArray'):
        session(R, P, '%s.mmap_chunk' % kind, lambda W: W.static(kind, 'mmap_chunk', file_sym('inp')))
    session(R, P, 'load_finalfusion', lambda W: W.func('embeddings.load_finalfusion', sym('path', STR), sym('mmap', BOOL)))

    def loopread(e):
        return e.d['n'] is C(12)
    session(R, P, 'find_chunk', lambda W: W.func('io.find_chunk', file_sym('inp'), sym('wanted', ('list', INT))), loopread)
    for q in ('compat.word2vec.load_word2vec', 'compat.fasttext.load_fasttext'):
        session(R, P, q.split('.')[-1], lambda W: W.func(q, sym('path', STR), sym('lossy', BOOL)))
    for q, dims in (('compat.text.load_text', False), ('compat.text.load_text_dims', True)):
        tag = q.split('.')[-1]
        with R.group('row', tag):
            W = World(P)
            r = W.func(q, sym('path', STR), sym('lossy', BOOL))
            R.analysed(W)
            text_rows(R, W, r, tag, dims)
