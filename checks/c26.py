"""C26: results and files are a function of the inputs alone."""
from .compat import *
from .cli import tool, calls, main_loc, FORMATS, LOAD, WRITE
from .c08 import LOADERS as CHUNK_LOADERS
from ffsa.equiv import opaque_terms, Env, NoEval, Oob

RULES = {
    'ambient': 'every result, written byte and printed text has the same value in two process environments that differ in the order of sets, stale memory, clock, random numbers, object addresses and hash seeds',
    'history': 'an operation gives the same result and the same effects after a history of other operations as in a fresh process, and what earlier operations returned keeps its value',
    'locale': 'text files are opened with an explicit encoding',
}
TECHNIQUE = 'self-composition of the extracted result and effect terms under two ambient environments; comparison of the terms of an operation with and without a preceding history'
NOTE = 'module-level, class-level and default-argument containers and instance caches persist in the abstract heap; numpy itself is taken to be deterministic'


def ambient_bits(t):
    """the parts of a term that depend on the process environment"""
    return [x for x in closure(t) if x.op in ('setseq', 'uninit') or x.op in ('call', 'ext') and str(x.a[0]).startswith(AMBIENT)]


def vary(t, pcs, pre, n=120, want=16):
    """None: not decided, True: same in both environments, else a counterexample"""
    bits = ambient_bits(t)
    if not bits:
        return True
    odd = [x for x in opaque_terms(t) if not (x.op in ('call', 'ext') and str(x.a[0]).startswith(AMBIENT)) and ambient_bits(x)]
    got = 0
    for s in range(n):
        vs = []
        try:
            for amb in (0, 1):
                Env.ambient = amb
                e = Env(s)
                if pre:
                    pre(e)
                if not all(e.truth(e.ev(l)) for l in pcs if not ambient_bits(l)):
                    break
                try:
                    vs.append(e.ev(t))
                except Oob:
                    vs.append('IndexError')
        except GIVE_UP:
            continue
        finally:
            Env.ambient = 0
        if len(vs) < 2:
            continue
        got += 1
        if not e.same(vs[0], vs[1]):
            return None if odd else 'in one process %s, in another %s' % (str(vs[0])[:150], str(vs[1])[:150])
        if got >= want:
            break
    return True if got >= 4 and not odd else None


def ambient(R, what, loc, t, pcs, pre):
    v = vary(t, pcs, pre)
    R.expect(v if v in (True, None) else False, 'ambient', what, loc, '%s (through %s)' % (v, str((ambient_bits(t) or [''])[0])[:120]))


OUT = ('write', 'warr', 'print', 'seek', 'truncate')


def outputs(tr, kinds=OUT):
    """the observable effects: (event, term as a function of the iteration numbers)"""
    out = []

    def go(evs, m):
        for e in evs:
            if e.body is not None:
                b = e.d.get('b')
                m2 = dict(m)
                if b is not None:
                    m2[b] = sym('%%i%d' % len(m), INT)
                    RNG[m2[b]] = (0, None)
                k = len(out)
                go(e.body, m2)
                if len(out) > k and isinstance(e.d.get('n'), T):
                    out.append((e, subst(e.d['n'], m)))
            elif e.kind in kinds:
                ts = [v for k, v in sorted(e.d.items()) if isinstance(v, T) and k not in ('file', 'pos', 'nbytes', 'term')]
                ts += [x for _, v in sorted(e.d.items()) if isinstance(v, (tuple, list)) for y in v for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, T)]
                out.append((e, subst(tup(*ts), m)))
    go(tr, {})
    return out


def locale(R, P, what, tr):
    for e in walk_events(tr):
        if e.kind == 'open':
            m = e.d['mode']
            m = m.a[0] if m.op == 'c' else None
            text = None if m is None else 'b' not in m
            bad = text and e.d['encoding'] is NONE
            R.expect(None if text is None else not bad, 'locale', what, e.loc, 'opened as text without an encoding: contents depend on the locale')


def seq(W, ops):
    out = []
    for f in ops:
        out.append(f())
        if W.st.dead:
            raise AnalysisBroken('the history fails')
    return out


def vocab_ops(W, v, k, w, tag=''):
    """queries on a vocabulary with the words w, as (name, thunk)"""
    sub = k != 'SimpleVocab'
    ops = [('idx', (w,)), ('__getitem__', (w,)), ('__contains__', (w,)), ('__iter__', ()), ('__len__', ())]
    if sub:
        ops += [('subword_indices', (w,)), ('subwords', (w,))]
    if k in ('FinalfusionBucketVocab', 'FastTextVocab'):
        ops += [('to_explicit', ())]
    return ops


def emb_ops(W, e, k, tag):
    cols = W.attr(e, 'dims')
    w, w2, w3 = sym('word' + tag, STR), sym('word2' + tag, STR), sym('word3' + tag, STR)
    n = W.int('k' + tag, 0, 2**31)
    sk = sym('skips' + tag, ('set', STR))
    q = W.array('query' + tag, (cols,))
    ops = [('embedding', (w,), {}), ('embedding_with_norm', (w,), {}), ('__getitem__', (w,), {}), ('__contains__', (w,), {}), ('__iter__', (), {}),
           ('word_similarity', (w, n), {}), ('embedding_similarity', (q, n), {'skip': sk}), ('embedding_similarity', (q, n), {}), ('analogy', (w, w2, w3, n), {}),
           ('write', (sym('path' + tag, STR),), {})]
    if k in ('FinalfusionBucketVocab', 'FastTextVocab'):
        ops += [('bucket_to_explicit', (), {})]
    return ops


IT = tuple(sym('%%i%d' % i, INT) for i in range(6))


def hpre(e):
    from .c11 import pre
    pre(e)
    r = random.Random('hist|%d' % e.seed)
    for x in IT:
        e.vals[x] = r.choice((0, 0, 1))
    ws = list(e.vals[sym('words', ('list', STR))]) or ['a']
    for n in ('word', 'word2', 'word3'):
        for t in ('', "'"):
            if r.random() < .8:
                e.vals[sym(n + t, STR)] = r.choice(ws + ['ab', 'zz'])


def tied(e):
    """the later arguments repeat or nearly repeat the earlier ones"""
    hpre(e)
    r = random.Random('tie|%d' % e.seed)
    if r.random() < .4:
        e.vals[sym('word', STR)] = e.vals.get(sym("word'", STR), 'ab')


def fresh_counters(W, c=None):
    I = W.I
    if c is None:
        return (I.nalloc, I.nrd, I.nref, I.nloop, I.nfid)
    I.nalloc, I.nrd, I.nref, I.nloop, I.nfid = [max(a, b) for a, b in zip(c, fresh_counters(W))]


def after(R, P, what, loc, make, history, op, pre):
    """compare op in a fresh world with op after the history"""
    W1 = World(P)
    x1 = make(W1)
    old = []
    for h in history(W1, x1):
        r = h()
        if W1.st.dead:
            R.expect(None, 'history', what, loc, 'the history never returns')
            return
        old.append((r.val, W1.content(r.val)))
    c = fresh_counters(W1)
    assume = W1.pc()
    W2 = World(P)
    x2 = make(W2)
    fresh_counters(W2, c)
    fresh_counters(W1, fresh_counters(W2))
    r1, r2 = op(W1, x1), op(W2, x2)
    if W1.st.dead or W2.st.dead:
        R.expect(True if W1.st.dead == W2.st.dead else None, 'history', what, loc, 'fails only with or without a history')
        return
    A_ = [l for l in W1.pc() if l not in ()]
    v1, v2 = W1.content(r1.val), W2.content(r2.val)
    R.expect(equal(v1, v2, A_, pre=pre, want=20), 'history', what, loc, 'after earlier calls: %s, in a fresh process: %s' % (str(v1)[:200], str(v2)[:200]))
    o1, o2 = outputs(r1.trace), outputs(r2.trace)
    if [e.kind for e, _ in o1] != [e.kind for e, _ in o2]:
        R.expect(None, 'history', what + ': effects', loc, 'different effects after earlier calls')
    else:
        for (e1, t1), (e2, t2) in zip(o1, o2):
            R.expect(equal(t1, t2, [], pre=pre, want=20), 'history', what + ': effects', e1.loc or loc, '%s against %s' % (str(t1)[:150], str(t2)[:150]))
    for i, (v, before) in enumerate(old):
        now = W1.content(v)
        R.expect(True if now is before else equal(now, before, A_, pre=pre, want=20), 'history', '%s: earlier result %d' % (what, i), loc,
                 'the result of an earlier call changed from %s to %s' % (str(before)[:150], str(now)[:150]))
    ambient(R, what, loc, v2, W2.pc(), pre)
    for e, t in o2:
        ambient(R, what + ': output', e.loc or loc, t, W2.pc(), pre)
    locale(R, P, what, r2.trace)
    R.analysed(W1)


def run(R, P):
    for k in VOCABS:
        W = World(P)
        e = some_embeddings(W, k)
        v = W.I.getattr(e, 'vocab', W.st, NODE)
        for j, (m, a) in enumerate(vocab_ops(W, v, k, word)):
            what = '%s.%s' % (k, m)
            with R.group('history', what):
                def hist(W, v):
                    v2 = W.vocab(k, "'")
                    o = vocab_ops(W, v, k, sym("word'", STR))
                    return [lambda x=x, n=n, a=a: W.call(x, n, *a) for x in (v2, v) for n, a in o if n == m or x is v and n != 'to_explicit']
                after(R, P, what, methloc(P, k, m), lambda W: W.vocab(k), hist, lambda W, v: W.call(v, m, *vocab_ops(W, v, k, word)[j][1]), tied)
        for j, (m, a, kw) in enumerate(emb_ops(W, e, k, '')):
            what = '%s embeddings: %s%s' % (k, m, '(%s)' % ', '.join(kw) if kw else '')
            with R.group('history', what):
                def hist(W, e):
                    e2 = some_embeddings(W, k, tag="'")
                    return [lambda x=x, n=n, a=a, kw=kw: W.call(x, n, *a, **kw) for x in (e2, e) for n, a, kw in emb_ops(W, x, k, "'")
                            if n == m or x is e and n in ('embedding', 'embedding_with_norm')]
                after(R, P, what, methloc(P, 'Embeddings', m), lambda W: some_embeddings(W, k), hist, lambda W, e: W.call(e, m, *emb_ops(W, e, k, '')[j][1], **emb_ops(W, e, k, '')[j][2]), tied)
        with R.group('ambient', k + ' embeddings: parts'):
            W = World(P)
            e = some_embeddings(W, k)
            b = readback(W, e)
            for n in sorted(b):
                ambient(R, '%s embeddings: %s' % (k, n), methloc(P, 'Embeddings', '__init__'), b[n], W.pc(), hpre)
            for n in ('__repr__', 'chunks'):
                r = W.call(e, n)
                ambient(R, '%s embeddings: %s' % (k, n), methloc(P, 'Embeddings', n), W.content(r.val), W.pc(), hpre)
    chunk_loaders(R, P)
    foreign(R, P)
    tools(R, P)


def chunk_loaders(R, P):
    p1 = sym("path'", STR)
    names = list(CHUNK_LOADERS) + ['embeddings.load_finalfusion']
    for name in names:
        what = name.split('.')[-1]
        with R.group('history', what):
            after(R, P, what, fnloc(P, PKG + name), lambda W: None, lambda W, _: [lambda: W.func(name, p1)], lambda W, _: W.func(name, path_), None)


def two(f):
    """f in both process environments"""
    out = []
    for amb in (0, 1):
        Env.ambient = amb
        try:
            out.append(f())
        finally:
            Env.ambient = 0
    return out


def flat(v):
    return tuple(flat(x) for x in v) if isinstance(v, (tuple, list)) else rows_of(v) if A.is_arr(v) else v


def foreign(R, P):
    for fmt in ('word2vec', 'text', 'textdims'):
        with R.group('ambient', 'load_' + fmt):
            L = Loader(P, fmt)
            R.analysed(L.W)
            locale(R, P, 'load ' + fmt, L.trace)
            ts = [t for t in (L.words, L.index, L.storage, L.norms)] if not L.dead else []
            if not any(ambient_bits(t) for t in ts) and not any(ambient_bits(l) for e in walk_events(L.trace) for l, _ in e.pc):
                R.expect(True, 'ambient', 'load_' + fmt, L.loc, '')
                continue

            def run(s):
                r = random.Random('c26|%s|%d' % (fmt, s))
                cols = r.choice((1, 2))
                ws = r.sample(WORDS[:4], 3)
                c = file_of(fmt, r, ws, vectors(r, 3, cols, False), cols)
                a, b = two(lambda: L.sample(s, c))
                return None if flat(a[:5]) == flat(b[:5]) else 'in one process %s, in another %s' % (flat(a[:2]), flat(b[:2]))
            judge_samples(R, 'ambient', 'load_' + fmt, L.loc, run)
    with R.group('ambient', 'load_fasttext'):
        L = Loader(P, 'fasttext')
        R.analysed(L.W)
        locale(R, P, 'load fasttext', L.trace)
        ts = [t for t in (L.words, L.index, L.storage, L.norms)] if not L.dead else []
        bits = [x for t in ts for x in ambient_bits(t) if x.op != 'uninit']
        R.expect(True if not bits else None, 'ambient', 'load_fasttext', L.loc, 'depends on %s' % [str(b)[:80] for b in bits][:1])
    for fmt in SAVERS:
        for vk in ('SimpleVocab', 'FastTextVocab'):
            if fmt == 'fasttext' and vk != 'FastTextVocab':
                continue
            what = 'write_%s, %s' % (fmt, vk)
            with R.group('ambient', what):
                S = Saver(P, fmt, vk, 'NdArray', True, {})
                R.analysed(S.W)
                locale(R, P, what, S.trace)
                bits = [b for e, t in outputs(S.trace) for b in ambient_bits(t)] + [b for e in walk_events(S.trace) for l, _ in e.pc for b in ambient_bits(l)]
                if not bits:
                    R.expect(True, 'ambient', what, S.loc, '')
                    continue

                def run(s):
                    a, b = two(lambda: S.sample(s)[1])
                    return None if a == b else 'in one process %s, in another %s' % (str(a)[:100], str(b)[:100])
                judge_samples(R, 'ambient', what, S.loc, run)
    p1 = sym("path'", STR)
    for fmt, name in sorted(LOADERS.items()):
        what = 'load_' + fmt
        with R.group('history', what):
            after(R, P, what, fnloc(P, PKG + name), lambda W: None, lambda W, _: [lambda: W.func(name, p1, lossy_)], lambda W, _: W.func(name, path_, lossy_), None)
    for fmt, name in sorted(SAVERS.items()):
        what = 'write_' + fmt
        with R.group('history', what):
            after(R, P, what, fnloc(P, PKG + name), lambda W: some_embeddings(W, 'FastTextVocab'), lambda W, e: [lambda: W.func(name, p1, e)], lambda W, e: W.func(name, path_, e), tied)


def tools(R, P):
    from .c23 import TOOLS
    for name, opt, src, fmts in TOOLS:
        loc = main_loc(P, name)
        what = 'ffp-' + name
        with R.group('ambient', what):
            W, r = tool(P, name, {opt: C('finalfusion'), **({'to': C('finalfusion')} if name == 'convert' else {})})
            R.analysed(W)
            locale(R, P, what, r.trace)
            n = 0
            for e, t in outputs(r.trace, OUT + ('call',)):
                n += 1
                bits = ambient_bits(t)
                v = vary(t, [], toolpre) if bits else True
                R.expect(v if v in (True, None) else False, 'ambient', what, e.loc or loc, '%s (through %s)' % (v, str((bits or [''])[0])[:120]))
            R.expect(True if n else None, 'ambient', what, loc, 'no output found')


def toolpre(e):
    r = random.Random('tool|%d' % e.seed)
    for x in IT:
        e.vals[x] = r.choice((0, 0, 1))
