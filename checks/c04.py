"""C04: little-endian files on every host."""
from .common import *
from ffsa.models import SIZES, itemsize, dtype_of

RULES = {
    'format': "every multi-byte struct field written to or read from a binary file has an explicit little-endian format",
    'array-out': 'for each host byte order and each byte order of the array, the bytes handed to the file are little-endian (byte swaps along the data flow counted)',
    'array-in': 'for each host byte order, an array read from a file is interpreted as little-endian (dtype order corrected by the byte swaps along the data flow)',
    'mmap': 'on a big-endian host every path of the memory-mapping loader raises',
}
TECHNIQUE = 'byte-order dataflow of every struct field and array between memory and file, for both host byte orders'


def flip(o):
    return {'<': '>', '>': '<'}.get(o, o)


def mem_orders(I, t, host):
    """possible byte orders of the memory behind array term t ('?' unknown)"""
    op = t.op
    if op == 'ite':
        return mem_orders(I, t.a[1], host) | mem_orders(I, t.a[2], host)
    if op == 'byteswap':
        return {flip(o) for o in mem_orders(I, t.a[0], host)}
    if op in ('view', 'reshape', 'T', 'asarray', 'newax', 'iter'):
        return mem_orders(I, t.a[0], host)
    if op == 'item':
        return mem_orders(I, t.a[0], host)
    d = dtype_of(I.dtype_term(t))
    if d is None:
        if op == 'poly' or op in ('dot', 'sum', 'mean', 'div', 'sqrt', 'norm'):
            return {'<' if host == 'little' else '>'}
        return {'?'}
    if itemsize(d) == 1:
        return {'|'}
    o = d[0]
    if o in '=@|':
        return {'<' if host == 'little' else '>'}
    return {o}


def in_parity(t, host, out):
    """collect (array read, observed order) pairs reachable in value t"""
    seen = set()

    def go(x, swaps, hide):
        """hide: arrays that only stand for memory here, with contents given by a version"""
        if x in hide or (x, swaps % 2, hide) in seen:
            return
        seen.add((x, swaps % 2, hide))
        if x.op == 'byteswap':
            return go(x.a[0], swaps + 1, hide)
        if x.op in ('ard', 'frombuf', 'memmap'):
            out.append((x, swaps))
            return
        if x.op == 'ver':
            version(x.a[1], x.a[2], swaps, hide)
            return go(x.a[0], swaps, hide | {x.a[1]})
        for y in children(x):
            go(y, swaps, hide)

    def version(r, v, swaps, hide):
        if v is ZERO:
            go(r, swaps, hide - {r})
        elif v.op == 'full':
            go(v.a[0], swaps, hide - {r})
        elif v.op == 'wr':
            version(r, v.a[0], swaps, hide)
            go(v.a[1], swaps, hide | {r})
            for y in v.a[2:]:
                go(y, swaps, hide)
        elif v.op == 'ite':
            go(v.a[0], 0, hide)
            version(r, v.a[1], swaps, hide)
            version(r, v.a[2], swaps, hide)
        elif v.op == 'fold':
            for y in v.a[1] + v.a[2]:
                version(r, y, swaps, hide)
        elif v.op != 'acc':
            go(v, swaps, hide)
    go(t, 0, frozenset())


def read_order_ok(x, swaps, host):
    d = dtype_of(next((y for y in x.a if isinstance(y, T) and (y.op == 'dtype' or dtype_of(y))), NONE))
    if d is None:
        return None
    if itemsize(d) == 1:
        return True
    o = d[0]
    if o in '=@|':
        o = '<' if host == 'little' else '>'
    if swaps % 2:
        o = flip(o)
    return o == '<'


def check_formats(R, trace, val, tag):
    seen = 0
    for e in walk_events(trace):
        if e.kind in ('write',):
            for x in closure(e.d['data']):
                if x.op == 'pack' and x.a[0].op == 'sfmt':
                    multi = [c for n, c in x.a[0].a[1] if c not in 'xscpbB?']
                    if multi:
                        seen += 1
                        R.expect(x.a[0].a[0] == '<', 'format', '%s: field(s) %s written' % (tag, ''.join(multi)), e.loc, 'byte order %r' % x.a[0].a[0])
                elif x.op == 'pack':
                    R.und('format', '%s: dynamic format' % tag, e.loc, str(x.a[0]))
        elif e.kind == 'read':
            buf = e.d['buf']
            ts = set()
            for e2 in walk_events(trace):
                for v in list(e2.d.values()):
                    if isinstance(v, T):
                        ts |= {x for x in closure(v) if x.op == 'fld' and x.a[0] is buf}
            ts |= {x for x in closure(val) if x.op == 'fld' and x.a[0] is buf}
            for x in sorted(ts, key=str):
                if SIZES.get(x.a[2], 1) > 1:
                    seen += 1
                    R.expect(x.a[3] == '<', 'format', '%s: field %s read' % (tag, x.a[2]), e.loc, 'byte order %r' % x.a[3])
    R.count('formats', seen)


def check_writes(R, I, trace, host, tag):
    for e in walk_events(trace):
        arrs = []
        if e.kind == 'warr':
            arrs = [e.d['arr']]
        elif e.kind == 'write':
            arrs = [x.a[0] for x in closure(e.d['data']) if x.op == 'tobytes']
        for a in arrs:
            os_ = mem_orders(I, a, host)
            v = None if '?' in os_ else os_ <= {'<', '|'}
            R.expect(v, 'array-out', '%s, %s-endian host' % (tag, host), e.loc, 'array %s reaches the file in byte order %s' % (a, sorted(os_)))


def check_reads(R, trace, vals, host, tag, loc):
    out = []
    for v in vals:
        in_parity(v, host, out)
    seen = set()
    for x, s in out:
        if (x, s % 2) in seen:
            continue
        seen.add((x, s % 2))
        if x.op == 'frombuf' and not any(y.op == 'rdb' for y in closure(x)):
            continue
        R.expect(read_order_ok(x, s, host), 'array-in', '%s, %s-endian host' % (tag, host), loc, '%s is interpreted in the wrong byte order' % x)


def run(R, P):
    hosts = ('little', 'big')
    for kind in CHUNKS + ('Header',):
        for host in hosts:
            with R.group('format', kind):
                w = Written(P, kind, byteorder=host)
                R.analysed(w.W)
                check_formats(R, w.r.trace, w.r.val, '%s.write_chunk' % kind)
                l = Loaded(P, kind, byteorder=host)
                R.analysed(l.R)
                check_formats(R, l.r.trace, l.val, '%s.read_chunk' % kind)
                check_reads(R, l.r.trace, [l.val], host, '%s.read_chunk' % kind, methloc(P, kind, 'read_chunk'))
    # arrays of either byte order
    for host in hosts:
        foreign = '>f4' if host == 'little' else '<f4'
        for dt in ('=f4', foreign):
            for kind in ('NdArray', 'Norms', 'QuantizedArray'):
                with R.group('array-out', kind):
                    W = World(P, byteorder=host)
                    if kind == 'NdArray':
                        o = W.ndarray(dtype=dt)
                    elif kind == 'Norms':
                        o = W.norms(dtype=dt)
                    else:
                        o = W.quantized()
                        for n in ('projection', 'subquantizers', 'qnorms'):
                            for s in list(W.I.dtypes):
                                if s.a[0] == n:
                                    W.I.dtypes[s] = mk('dtype', dt)
                    r = W.call(o, 'write_chunk', file_sym('out'))
                    R.analysed(W)
                    check_writes(R, W.I, r.trace, host, '%s.write_chunk of %s' % (kind, dt))
    for kind in ('NdArray', 'QuantizedArray'):
        with R.group('mmap', kind):
            l = Loaded(P, kind, 'mmap_chunk', byteorder='big')
            R.analysed(l.R)
            loc = methloc(P, kind, 'mmap_chunk')
            R.expect(bool(l.dead), 'mmap', kind, loc, 'memory mapping is not refused on a big-endian host')
            l = Loaded(P, kind, 'mmap_chunk', byteorder='little')
            check_reads(R, l.r.trace, [l.val], 'little', '%s.mmap_chunk' % kind, loc)
            check_formats(R, l.r.trace, l.val, '%s.mmap_chunk' % kind)
    # other binary formats
    for name, args in (('compat.word2vec.load_word2vec', 1), ('compat.fasttext.load_fasttext', 1)):
        for host in hosts:
            with R.group('array-in', name):
                W = World(P, byteorder=host)
                r = W.func(name, sym('path', STR))
                R.analysed(W)
                loc = fnloc(P, PKG + name)
                vals = [W.content(r.val)]
                for e in walk_events(r.trace):
                    if e.kind in ('store', 'mutate') and isinstance(e.d.get('value'), T) and e.d['how' if e.kind == 'mutate' else 'key'] != 'inplace-swap':
                        vals.append(e.d['value'])
                check_formats(R, r.trace, r.val, name)
                check_reads(R, r.trace, vals, host, name, loc)
    from .build import some_embeddings
    for name in ('compat.word2vec.write_word2vec', 'compat.fasttext.write_fasttext'):
        for host in hosts:
            with R.group('array-out', name):
                W = World(P, byteorder=host)
                e = some_embeddings(W, 'FastTextVocab')
                r = W.func(name, sym('path', STR), e)
                R.analysed(W)
                check_formats(R, r.trace, r.val, name)
                check_writes(R, W.I, r.trace, host, name)
