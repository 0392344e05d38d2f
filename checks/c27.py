"""C27: file handles are always released and a refused export leaves its target alone."""
from .compat import *
from .cli import tool, main_loc
from .c23 import TOOLS, TO
from . import c08
from ffsa.handles import Handles
from ffsa.equiv import Env, NoEval

RULES = {
    'closed': 'every opened file is owned by a with statement or a finally clause, or handed to a caller that does so',
    'input': 'loaders and tools open their input, and only for reading',
    'output': 'an export opens exactly the requested path, once, for writing from the start',
    'refuse': 'an export of something the format cannot hold raises without having opened a file',
    'late': 'no check of the exported embeddings fails after the output file was opened',
}
TECHNIQUE = 'ownership analysis of opening expressions over the syntax trees; effect traces of all loaders, writers and tools with the paths that raise'
CHUNKS_ = ('SimpleVocab', 'ExplicitVocab', 'FinalfusionBucketVocab', 'FastTextVocab', 'NdArray', 'QuantizedArray', 'Norms', 'Metadata')


def run(R, P):
    with R.group('closed', 'opening expressions'):
        h = Handles(P)
        R.count('opening expressions', len(h.sites))
        for s in h.sites:
            R.expect(s.verdict, 'closed', s.fn, s.loc, s.why)
    inputs(R, P)
    outputs(R, P)
    refused(R, P)


def mode_of(e):
    m = e.d['mode']
    return cval(m) if isc(m) and isinstance(cval(m), str) else None


def inputs(R, P):
    todo = [(q, lambda W, q=q: W.func(q, path_)) for q in c08.LOADERS]
    todo += [('embeddings.load_finalfusion', lambda W: W.func('embeddings.load_finalfusion', path_, sym('mmap', BOOL)))]
    todo += [(q, lambda W, q=q: W.func(q, path_, lossy_)) for q in LOADERS.values()]
    for q, f in todo:
        with R.group('input', q):
            W = World(P)
            r = f(W)
            R.analysed(W)
            es = [e for e in walk_events(r.trace) if e.kind == 'open']
            if not es:
                R.expect(None, 'input', q, fnloc(P, PKG + q), 'opens no file')
            for e in es:
                m = mode_of(e)
                R.expect(None if m is None else m.strip('bt') in ('r', 'rU'), 'input', q, e.loc, 'opened with mode %s' % e.d['mode'])
                R.expect(equal(e.d['path'], path_, []), 'input', q + ': path', e.loc, 'opens %s' % e.d['path'])
    for name, opt, src, fmts in TOOLS:
        for f in fmts:
            what = 'ffp-%s %s' % (name, f)
            given = {opt: C(f), 'include': lst()}
            if name in TO:
                given[TO[name]] = C('finalfusion')
            with R.group('input', what):
                W, r = tool(P, name, given)
                R.analysed(W)
                R.expect(True, 'input', what, main_loc(P, name), '')
                for e in walk_events(r.trace):
                    if e.kind == 'open':
                        m = mode_of(e)
                        R.expect(None if m is None else m.strip('bt') in ('r', 'rU'), 'input', what, e.loc, '%s opened with mode %s' % (e.d['path'], e.d['mode']))


def exports(P):
    for fmt in SAVERS:
        for vk in VOCABS if fmt != 'fasttext' else ('FastTextVocab',):
            for st, kw in (('NdArray', {}), ('QuantizedArray', {})):
                def f(W, fmt=fmt, vk=vk, st=st, kw=kw):
                    e = some_embeddings(W, vk, st, True, True, kw)
                    W.I.trace = []
                    return W.func(SAVERS[fmt], path_, e)
                yield '%s from %s/%s' % (fmt, vk, st), fnloc(P, PKG + SAVERS[fmt]), f, vk
    for vk in VOCABS:
        for st, kw in (('NdArray', {}), ('QuantizedArray', {})):
            for nm, md in ((True, True), (False, False)):
                def f(W, vk=vk, st=st, kw=kw, nm=nm, md=md):
                    return W.call(some_embeddings(W, vk, st, nm, md, kw), 'write', path_)
                yield 'finalfusion from %s/%s%s' % (vk, st, '' if nm else ', no norms and metadata'), methloc(P, 'Embeddings', 'write'), f, vk
    for k in CHUNKS_:
        yield 'component %s' % k, methloc(P, k, 'write'), (lambda W, k=k: W.call(W.component(k), 'write', path_)), k


def outputs(R, P):
    for what, loc, f, vk in exports(P):
        with R.group('output', what):
            W = World(P)
            r = f(W)
            R.analysed(W)
            es = [e for e in walk_events(r.trace) if e.kind == 'open']
            R.expect(None if W.I.unknown and not es else len(es) == 1, 'output', what + ': one file', loc, 'opens %d files: %s' % (len(es), [str(e.d['path']) for e in es]))
            for e in es:
                m = mode_of(e)
                R.expect(None if m is None else m.strip('bt') in ('w', 'x', 'w+'), 'output', what, e.loc, '%s opened with mode %s' % (e.d['path'], e.d['mode']))
                R.expect(equal(e.d['path'], path_, []), 'output', what + ': path', e.loc, 'opens %s' % e.d['path'])
            late(R, W, r, what, vk)


def late(R, W, r, what, vk):
    bad = []
    for x in r.raises:
        fs = [f for f in x.st.fpos if f.op == 'fobj' and set(str(f.a[2]).strip("'")) & set('wxa+')]
        lits = [l for l, t in x.st.pc]
        if not fs or any(l is FALSE for l in lits):
            continue
        if any(y.op in ('rdb', 'ard', 'raises') for l in lits for y in closure(l)):
            continue        # depends on the outcome of input or output
        bad.append((x, lits))
    if not bad:
        R.expect(True, 'late', what, methloc(W.prog, 'Embeddings', 'write'), '')
    for x, lits in bad:
        hit = None
        for seed in range(200):
            e = Env(seed)
            wpre(e, vk, 1 + seed % 4)
            try:
                if all(e.truth(e.ev(l)) for l in lits):
                    hit = seed
                    break
            except (NoEval, RecursionError, Oob):
                continue
        R.expect(False if hit is not None else None, 'late', what, x.loc, 'raises %s after opening the output, for example (sample %s) under %s' % (x.exc, hit, [str(l)[:120] for l in lits][-2:]))


def refused(R, P):
    for vk in ('SimpleVocab', 'ExplicitVocab', 'FinalfusionBucketVocab'):
        for st, kw in (('NdArray', {}), ('QuantizedArray', {})):
            what = 'fasttext from %s/%s' % (vk, st)
            loc = fnloc(P, PKG + SAVERS['fasttext'])
            with R.group('refuse', what):
                W = World(P)
                e = some_embeddings(W, vk, st, True, True, kw)
                W.I.trace = []
                judge_refused(R, W, W.func(SAVERS['fasttext'], path_, e), what, loc)
    with R.group('refuse', 'a lone header'):
        W = World(P)
        judge_refused(R, W, W.call(W.header(), 'write', path_), 'a lone header', methloc(P, 'Header', 'write'))


def judge_refused(R, W, r, what, loc):
    R.analysed(W)
    R.expect(True if W.st.dead else None if W.I.unknown else False, 'refuse', what, loc, 'is exported instead of refused')
    es = [e for e in walk_events(r.trace) if e.kind == 'open']
    R.expect(not es, 'refuse', what + ': target untouched', es[0].loc if es else loc, 'opens %s before refusing' % [str(e.d['path']) for e in es])
