"""C08: loaders find and dispatch every component kind."""
import random
from .common import *
from .exits import *
from .c06 import fields
from ffsa.interp import INF

RULES = {
    'preamble': 'a component loader starts at the beginning of the file and consumes exactly the header that Header writes',
    'search': 'the search stops at a chunk exactly if its kind is one of the requested kinds',
    'skip': 'a chunk of another kind is skipped by its chunk header plus its declared length',
    'dispatch': 'for every requested kind, what is read after the search is what the writer of that kind wrote, restored part by part',
    'absent': 'the loader raises when the file ends before a requested chunk is found',
    'listing': 'the header written with embeddings or a component lists the kinds of the chunks that follow, in order',
    'embeddings': 'the embeddings loader consumes exactly what writing embeddings emits and restores every part',
}
TECHNIQUE = 'search-loop analysis, dispatch case split, whole-file writer/reader alignment'
ID = {'SimpleVocab': 1, 'NdArray': 2, 'FinalfusionBucketVocab': 3, 'QuantizedArray': 4, 'Metadata': 5, 'Norms': 6, 'FastTextVocab': 7, 'ExplicitVocab': 8}
from .compat import judge_samples
from .ffile import FF_LOADERS as LOADERS      # noqa: the public chunk loaders and the kinds they load
path = sym('path', STR)


def opened(r):
    fs = [e.d['file'] for e in walk_events(r.trace) if e.kind == 'open']
    return fs[0] if len(set(fs)) == 1 else None


def split_loop(trace):
    """(events before the search loop, the loop, events after)"""
    for i, e in enumerate(trace):
        if e.kind == 'loop' and e.d['n'] is INF:
            return trace[:i], e, trace[i + 1:]
    return None


def replace(t, m):
    return subst(t, m) if m else t


def firsts(ts):
    out = set()
    for t in ts:
        for y in closure(t):
            if y.op in ('first', 'sometime'):
                out.add(y)
    return out


def ev_terms(e):
    for l, _ in e.pc:
        yield l
    for v in e.d.values():
        if isinstance(v, T):
            yield v
        elif isinstance(v, (tuple, list)):
            for x in v:
                if isinstance(x, T):
                    yield x


def samples(R, P, q, kinds):
    """the loader's effect trace interpreted on encoded sample files: (counterexample found, every sample decided)"""
    from . import ffile as F
    loc = fnloc(P, PKG + q)
    out = {}
    with R.group('dispatch', q + ' on sample files'):
        others = [k for k in ID if k not in kinds]
        for short_ in (False, True):
            L = F.ChunkLoader(P, q, kinds, short_)
            R.analysed(L.W)
            for kind in kinds:
                tag = '%s: sample files with %s%s' % (q, kind, ' (end of file visible)' if short_ else '')
                n = 12 if R.tier == 'quick' else 40
                out[kind] = F.judge(R, 'dispatch', tag, loc, L, kind, others, n) and out.get(kind, True)
            if short_:
                F.judge_absent(R, 'absent', '%s: sample files without the chunk' % q, loc, L, others, 8)
    return out


def loader(R, P, q, kinds):
    loc = fnloc(P, PKG + q)
    good = samples(R, P, q, kinds)
    with R.group('search', q):
        W = World(P)
        r = W.func(q, path)
        R.analysed(W)
        f = opened(r)
        sp = split_loop(r.trace)
        if f is None or sp is None:
            R.und('search', q, loc, 'no search loop found')
            return
        pre, loop, post = sp
        R.count('loaders')
        # preamble
        with R.group('preamble', q):
            w = Written(P, 'Header')
            items = reader_items(pre, f, ())
            if items and items[0].k == 'seek' and items[0].ev.d['off'] is ZERO and items[0].ev.d['whence'] is ZERO:
                items = items[1:]
            try:
                al, cases = align(W, w.items, f, items, w.pos, sym('%unused', INT), w.W.pc(), skip_header=False)
                R.ok('preamble', q, loc)
            except Mis as x:
                if good and all(good.values()):
                    # a search of another shape: the sample files decide
                    R.und('preamble', q, x.rloc or loc, x.msg)
                    return
                R.bad('preamble', q, x.rloc or loc, x.msg)
        # the loop
        fs = [(t, e) for p, t, e in fields([loop]) if t is not None]
        reads = [e for e in loop.body if e.kind == 'read']
        if len(fs) < 2 or not reads:
            R.und('search', q, loop.loc, 'chunk header fields not found')
            return
        idf, lenf = fs[0][0], fs[1][0]
        b = loop.d['b']
        conds = {y.a[0] for e in post for t in ev_terms(e) for y in closure(t) if y.op == 'sometime'}
        conds |= {y.a[0] for l, _ in W.st.pc for y in closure(l) if y.op == 'sometime'}
        normal = set()
        for l, t in W.st.pc:
            for y in closure(l):
                if y.op == 'sometime' and has(l, y):
                    neg = l.op == 'not' and l.a[0] is y
                    if not neg:
                        normal.add(y.a[0])
        stop = or_(*normal) if normal else None
        wanted = {ID[k] for k in kinds}
        for k in range(1, 9):
            c = subst(stop, {idf: C(k)}) if stop is not None else None
            R.expect(None if c is None or c not in (TRUE, FALSE) else (c is TRUE) == (k in wanted), 'search', '%s: chunk kind %d' % (q, k), loop.loc,
                     'the search %s at a chunk of kind %d' % ('stops' if c is TRUE else 'does not stop', k))
        other = next(k for k in range(1, 9) if k not in wanted)
        m = {idf: C(other)}
        adv = ZERO
        for it in reader_items(loop.body, f, ()):
            g = subst(and_(*it.g), m) if it.g else TRUE
            if g is FALSE:
                continue
            if g is not TRUE:
                adv = None
                break
            if it.k == 'read':
                adv = add(adv, it.size)
            elif it.k == 'seek' and it.ev.d['whence'] is ONE:
                adv = add(adv, it.ev.d['off'])
            elif it.k == 'seek' and it.ev.d['whence'] is ZERO:
                start = reads[0].d['pos']
                adv = sub(it.ev.d['off'], start)
            else:
                adv = None
                break
        R.expect(None if adv is None else equal(adv, add(C(HDR), lenf), []), 'skip', q, loop.loc, 'a chunk of another kind advances the file by %s' % adv)
        # dispatch
        pool = [t for e in walk_events(post) for t in ev_terms(e)] + [l for l, _ in W.st.pc] + [W.content(r.val)]
        fst = firsts(pool)
        for kind in kinds:
            with R.group('dispatch', '%s: %s' % (q, kind)):
                P0 = sym('%at', INT)
                m = {}
                for y in fst:
                    if y.op == 'sometime':
                        m[y] = TRUE if y.a[0] in normal else FALSE
                    else:
                        m[y] = C(ID[kind]) if first_value(y).op == 'fld' else P0
                RNG[P0] = (12, 2**50)
                w = Written(P, kind)
                link(w.W, W)
                items = reader_items([e.subst(m) for e in post], f, ())
                val = subst(W.content(r.val), m)
                tag = '%s: %s' % (q, kind)
                try:
                    al, cases = align(W, w.items, f, items, w.pos, P0, w.W.pc())
                except Mis as x:
                    R.bad('dispatch', tag, x.rloc or x.wloc or loc, '%s (written at %s, read at %s)' % (x.msg, x.wloc, x.rloc))
                    continue
                # exits that always fire for this kind
                dead = None
                for x in r.raises:
                    g = subst(and_(*[l for l, t in x.st.pc if t == 'branch']), m)
                    if g is TRUE:
                        dead = x
                R.expect(dead is None, 'dispatch', tag + ' accepted', dead.loc if dead else loc, 'the loader always raises for this kind')
                for c in cases:
                    v = al.resolve(val, c)
                    compare_objects(R, 'dispatch', '%s [%s]' % (tag, short(c.A)), loc, v, al.under(w.snap, c), c.A)


def first_value(y):
    """value part of a first(n, binder, cond, value) term"""
    return y.a[-2] if y.a and not isinstance(y.a[-2], (int, str)) and isinstance(y.a[-2], T) else y.a[-1]


def absent(R, P, q):
    """no matching chunk until end of file: an error"""
    loc = fnloc(P, PKG + q)
    CFG['full_reads'] = False
    try:
        with R.group('absent', q):
            W = World(P)
            r = W.func(q, path)
            R.analysed(W)
            sp = split_loop(r.trace)
            if sp is None:
                R.und('absent', q, loc, 'no search loop found')
                return
            pre, loop, post = sp
            reads = [e for e in loop.body if e.kind == 'read']
            end = eq(len_(reads[0].d['buf']), ZERO)
            # the iteration that meets the end of file leaves the loop or raises; afterwards an exit fires
            inner = [and_(*g) if g else TRUE for p, g, l, x in exit_list(r) if p and p[0] is loop]
            if any(assume_lits(c, [end]) is TRUE for c in inner):
                R.ok('absent', q, loop.loc)
                return
            somes = {y for e in post for t in ev_terms(e) for y in closure(t) if y.op == 'sometime'}
            eof = [y for y in somes if assume_lits(y.a[0], [end]) is TRUE]
            if not eof:
                R.und('absent', q, loop.loc, 'no exit at end of file found')
                return
            m = {y: (TRUE if y in eof else FALSE) for y in somes}
            for y in firsts([t for e in post for t in ev_terms(e)]):
                if y.op == 'first':
                    m[y] = NONE
            conds = []
            for p, g, l, x in exit_list(r):
                if not p and x in post:
                    conds.append(subst(and_(*g), m) if g else TRUE)
            v = True if any(c is TRUE for c in conds) else None
            if v is None:
                v = decide([], conds)
            R.expect(v, 'absent', q, loc, 'the end of the file is not reported')
    finally:
        CFG['full_reads'] = True


def write_listing(R, P):
    for kind in ID:
        with R.group('listing', kind + '.write'):
            W = World(P)
            o = W.component(kind)
            r = W.call(o, 'write', path)
            R.analysed(W)
            f = opened(r)
            loc = methloc(P, kind, 'write')
            items = writer_items(r.trace, f, W.st.pc)
            listing(R, kind + '.write', loc, items, [ID[kind]])
            if len(items) > 4:
                R.expect(items[4].k == 'prim' and equal(items[4].val, C(ID[kind]), []), 'listing', kind + '.write first chunk', items[4].loc, 'the chunk does not follow the header')


def flat(items):
    out = []
    for i in items:
        if i.g:
            return out
        if i.k == 'prim' and i.cnt is not ONE:
            return out
        out.append(i)
    return out


def listing(R, what, loc, items, ids):
    want = [('bytes', 4, C(b'FiFu')), ('prim', 4, C(0)), ('prim', 4, C(len(ids)))] + [('prim', 4, C(i)) for i in ids]
    its = flat(items)
    if len(its) < len(want):
        # the identifiers written as one field group
        R.und('listing', what, loc, 'header fields not enumerable')
        return
    for (k, n, v), it, name in zip(want, its, ['magic', 'version', 'chunk count'] + ['chunk %d' % i for i in range(len(ids))]):
        if it.k not in ('prim', 'bytes') or it.size is not C(n):
            R.expect(False, 'listing', '%s %s' % (what, name), it.loc, 'unexpected field')
            return
        R.expect(equal(it.val, v, []), 'listing', '%s %s' % (what, name), it.loc, 'written %s, expected %s' % (it.val, v))


def embeddings(R, P, vk, sk, norms, meta):
    tag = 'Embeddings(%s, %s%s%s)' % (vk, sk, ', norms' if norms else '', ', metadata' if meta else '')
    with R.group('embeddings', tag):
        W = World(P)
        v = W.vocab(vk)
        s = W.storage(sk, W.attr(v, 'upper_bound'))
        n = W.norms(len_(sym('words', ('list', STR)))) if norms else NONE
        m = W.metadata() if meta else NONE
        e = W.new('Embeddings', s, v, n, m)
        r = W.call(e, 'write', path)
        R.analysed(W)
        f = opened(r)
        wloc = methloc(P, 'Embeddings', 'write')
        witems = writer_items(r.trace, f, W.st.pc)
        ids = ([5] if meta else []) + [ID[vk], ID[sk]] + ([6] if norms else [])
        listing(R, tag, wloc, witems, ids)
        snap = W.snap(e)
        for mm in (FALSE,) if R.tier == 'quick' else (FALSE, TRUE):
            CFG['full_reads'] = False
            try:
                L = World(P)
                link(W, L)
                lr = L.func('embeddings.load_finalfusion', path, mm)
            finally:
                CFG['full_reads'] = True
            R.analysed(L)
            lf = opened(lr)
            loc = fnloc(P, PKG + 'embeddings.load_finalfusion')
            items = reader_items(lr.trace, lf, ())
            al = EofAligner(L.I, witems, lf, ZERO, sym('%unused', INT), W.pc())
            try:
                cases = al.run(list(items))
            except Mis as x:
                R.bad('embeddings', tag, x.rloc or x.wloc or loc, '%s (written at %s, read at %s)' % (x.msg, x.wloc, x.rloc))
                continue
            R.ok('embeddings', tag, loc)
            for c in cases:
                val = al.resolve(L.content(lr.val), c)
                for x in lr.raises:
                    try:
                        g = [al.resolve(l, c) for l, t in x.st.pc if t == 'branch']
                    except (Und, Mis):
                        continue
                    if all(l is TRUE for l in g):
                        R.bad('embeddings', '%s [%s] accepted' % (tag, short(c.A)), x.loc, 'the loader always rejects this file')
                gq, gf = obj_fields(val)
                wq, wf = obj_fields(snap)
                gf.pop('_origin', None)
                wf.pop('_origin', None)
                compare_parts(R, 'embeddings', '%s [%s]' % (tag, short(c.A)), loc, gf, wf, al, c)


def compare_parts(R, rule, tag, loc, gf, wf, al, c):
    for k in sorted(set(gf) & set(wf)):
        g, w = gf[k], al.under(wf[k], c)
        if g.op == 'obj' or w.op == 'obj':
            compare_objects(R, rule, '%s.%s' % (tag, k), loc, g, w, c.A)
        else:
            R.expect(equal(g, w, c.A), rule, '%s.%s' % (tag, k), loc, 'restored %s, was %s' % (g, w))


class EofAligner(Aligner):
    eof = True


def whole(R, P):
    from . import ffile as F
    with R.group('embeddings', 'load_finalfusion on sample files'):
        L = F.EmbeddingsLoader(P)
        R.analysed(L.W)

        def run_(s):
            r = random.Random('c08|%d' % s)
            ks = F.sequence(r, True)
            data, at, parts = F.positions(ks, r)
            get = ['words', 'word_index', 'norms'] + (['storage'] if 'NdArray' in ks else [])
            o = L.sample(s, data, get)
            if o[0] == 'raised':
                return 'a file with chunks %s is refused with %s' % (', '.join(ks), o[1])
            p = dict(zip(ks, parts))
            v = p[next(k for k in ks if k in VOCABS)]
            want = {'words': v['words'], 'word_index': v['word_index'], 'norms': p['Norms']['array'] if 'Norms' in p else None}
            if 'NdArray' in ks:
                want['storage'] = p['NdArray']['array']
            for k in get:
                if o[1][k] != want[k]:
                    return 'from a file with chunks %s, %s is read as %s, written %s' % (', '.join(ks), k, str(o[1][k])[:100], str(want[k])[:100])
        n = 24 if R.tier == 'quick' else 120
        judge_samples(R, 'embeddings', 'load_finalfusion on sample files', L.loc, run_, n, n)


def run(R, P):
    whole(R, P)
    for q, kinds in LOADERS.items():
        loader(R, P, q, kinds)
        absent(R, P, q)
    with R.group('preamble', 'io.find_chunk'):
        W = World(P)
        F = file_sym('inp')
        r = W.func('io.find_chunk', F, sym('wanted', ('list', INT)))
        evs = [e for e in r.trace if e.kind in ('seek', 'read', 'loop') and e.d.get('file', F) is F]
        e = evs[0] if evs else None
        R.expect(None if e is None else e.kind == 'seek' and equal(e.d['off'], ZERO, []) and e.d['whence'] is ZERO, 'preamble', 'io.find_chunk', e.loc if e else None, 'the search does not start at the beginning of the file')
    for wanted in [(k,) for k in range(1, 9)] + [(1, 2, 3, 4, 5, 6, 7, 8), (8, 6, 4, 2, 7, 5), (7, 3, 1, 8, 6), (2, 4)]:
        with R.group('search', 'io.find_chunk%s' % (wanted,)):
            W = World(P)
            F = file_sym('inp')
            r = W.func('io.find_chunk', F, lst(*[C(k) for k in wanted]))
            R.analysed(W)
            sp = split_loop(r.trace)
            fs = [(t, e) for p, t, e in fields([sp[1]]) if t is not None] if sp else []
            if not fs:
                R.und('search', 'io.find_chunk', None, 'no search loop found')
                continue
            for k in range(1, 9):
                c = subst(sp[1].d['ret'], {fs[0][0]: C(k)})
                R.expect((c is TRUE) == (k in wanted) if c in (TRUE, FALSE) else None, 'search', 'io.find_chunk: chunk kind %d, wanted %s' % (k, wanted), sp[1].loc,
                         'the search %s at a chunk of kind %d' % ('stops' if c is TRUE else 'does not stop', k))
    write_listing(R, P)
    for vk in VOCABS:
        for sk in ('NdArray', 'QuantizedArray'):
            for n in (True, False):
                for m in (True, False):
                    if R.tier == 'quick' and (n != m) and (vk != 'SimpleVocab'):
                        continue
                    embeddings(R, P, vk, sk, n, m)
