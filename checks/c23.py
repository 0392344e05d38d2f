"""C23: the command-line tools do what their options say."""
import re
from .c16 import *
from .build import some_embeddings

RULES = {
    'load': 'the input is loaded once, with the loader of the chosen format, from the given path, with the given lossy or mmap flag',
    'write': 'the loaded embeddings are written once, with the writer of the chosen format, to the given path',
    'formats': 'every offered format name has a loader (and writer), and the documented formats are offered',
    'options': 'flags are off unless given, paths are taken as given, k is a number, the default of an option is the one its help names',
    'similar': 'ffp-similar asks for the word on every non-empty line, with the given k, and reports queries without an answer',
    'select': 'ffp-select writes exactly the requested words that can be represented, once each, in order, each with its own embedding',
    'refuse': 'ffp-select fails without writing exactly if a word cannot be represented and such words are not to be skipped',
}
TECHNIQUE = 'effect traces of each tool\'s main for every format, with loaders and writers as recorded calls; value numbering of the selection against a reference'
TOOLS = (('convert', 'from', 'input', FORMATS), ('similar', 'format', 'embeddings', FORMATS), ('analogy', 'format', 'embeddings', FORMATS),
         ('select', 'format', 'input', FORMATS), ('bucket_to_explicit', 'from', 'input', ('finalfusion', 'fasttext')))
TO = {'convert': 'to'}


def run(R, P):
    for name, opt, src, fmts in TOOLS:
        loc = main_loc(P, name)
        for f in fmts:
            for t in (FORMATS if name in TO else ('finalfusion',)):
                what = 'ffp-%s %s%s' % (name, f, ' to ' + t if name in TO else '')
                with R.group('load', what):
                    given = {opt: C(f), 'include': lst()}
                    if name in TO:
                        given[TO[name]] = C(t)
                    W, r = tool(P, name, given)
                    R.analysed(W)
                    load = one(R, W, r, 'load', what, loc, LOAD.values(), LOAD[f])
                    if load is None:
                        continue
                    n, a, ev = load
                    same(R, 'load', what + ': path', loc, first(P, ev), sym('args.' + src, STR), 'the input path')
                    flag = 'mmap' if f == 'finalfusion' else 'lossy'
                    same(R, 'load', '%s: %s' % (what, flag), loc, a.get(flag, NONE), sym('args.' + flag, BOOL), 'the %s flag' % flag)
                    R.expect(equal(cond(ev), TRUE, []), 'load', what + ': always', loc, 'loads only if %s' % str(cond(ev))[:200])
                    if name in ('convert', 'bucket_to_explicit'):
                        out(R, P, W, r, what, loc, t, ev, name)
        options(R, P, name, opt, src, fmts, loc)
    similar(R, P)
    for vk in ('SimpleVocab', 'ExplicitVocab', 'FinalfusionBucketVocab'):
        select(R, P, vk)


def first(P, ev):
    args = [v for k, v in ev.d['args'] if k not in ('self', 'embeddings')]
    return args[0] if args else NONE


def one(R, W, r, rule, what, loc, names, want):
    cs = calls(r, *names)
    odd = [e for e in walk_events(r.trace) if e.kind == 'extcall'] or W.I.unknown
    if not cs:
        ex = [x for x in r.raises]
        R.expect(None if odd else False, rule, what, loc, 'no call of %s%s' % (want, '; ends with ' + str(ex[0].exc) if ex else ''))
        return None
    good = [c for c in cs if c[0] == want]
    bad = [c for c in cs if c[0] != want]
    for c in bad:
        # a call that is only reached under a condition this run cannot decide is not judged
        R.expect(False if equal(cond(c[2]), TRUE, []) is True else None, rule, what, c[2].loc or loc, 'calls %s instead of %s' % (c[0], want))
    R.expect(True if len(good) == 1 else False if not good and bad else None if not good else False, rule, what + ': once', loc,
             '%d calls of %s' % (len(good), want))
    return good[0] if len(good) == 1 else None


def same(R, rule, what, loc, got, want, txt):
    R.expect(equal(got, want, []), rule, what, loc, '%s is %s, not %s' % (txt, str(got)[:200], want))


def out(R, P, W, r, what, loc, t, load, name):
    want = WRITE.get(t, 'write')
    w = one(R, W, r, 'write', what, loc, list(WRITE.values()) + ['write'], want)
    if w is None:
        return
    n, a, ev = w
    same(R, 'write', what + ': path', loc, first(P, ev), sym('args.output', STR), 'the output path')
    src = a.get('self', (list(v for k, v in ev.d['args']) + [NONE, NONE])[1])
    if name == 'bucket_to_explicit':
        b = one(R, W, r, 'write', what + ': converted', loc, ('bucket_to_explicit',), 'bucket_to_explicit')
        if b is None:
            return
        same(R, 'write', what + ': converted embeddings', loc, src, b[2].d['term'], 'what is written')
        src = b[1].get('self', NONE)
    same(R, 'write', what + ': embeddings', loc, src, load.d['term'], 'what is written')
    R.expect(equal(cond(ev), TRUE, []), 'write', what + ': always', loc, 'writes only if %s' % str(cond(ev))[:200])


def const(t):
    if t is None:
        return None
    if t.op == 'c':
        return t.a[0]
    if t.op in ('tuple', 'list', 'set'):
        return [const(x) for x in t.a]
    return t


def options(R, P, name, opt, src, fmts, loc):
    with R.group('options', name):
        W, r = tool(P, name, {})
        o = W.I.options

        def d(k):
            return o.get(k)
        for k, want in [(opt, fmts)] + ([(TO[name], FORMATS)] if name in TO else []):
            x = d(k)
            R.expect(x is not None, 'formats', '%s --%s' % (name, k), loc, 'the option is gone')
            if x is None:
                continue
            ch = const(x[1].get('choices')) if x[1].get('choices') is not None else None
            if isinstance(ch, list) and all(isinstance(c, str) for c in ch):
                for c in want:
                    R.expect(c in ch, 'formats', '%s --%s %s' % (name, k, c), x[2], 'format %s is not offered' % c)
                for c in ch:
                    R.expect(c in FORMATS, 'formats', '%s --%s %s' % (name, k, c), x[2], 'format %s has no loader and writer' % c)
                df = const(x[1].get('default'))
                R.expect(df in ch if isinstance(df, str) or df is None else None, 'formats', '%s --%s default' % (name, k), x[2], 'default %s' % df)
        flags = ['lossy', 'mmap'] + (['ignore_unk', 'verbose'] if name == 'select' else [])
        for k in flags:
            x = d(k)
            R.expect(x is not None, 'options', '%s --%s' % (name, k), loc, 'the flag is gone')
            if x is None:
                continue
            act = const(x[1].get('action'))
            df = const(x[1].get('default'))
            if act == 'store_true':
                R.expect(df in (False, None), 'options', '%s --%s' % (name, k), x[2], 'the flag is on when not given')
            elif act == 'store_false':
                R.expect(False, 'options', '%s --%s' % (name, k), x[2], 'giving the flag turns it off')
            else:
                R.expect(None, 'options', '%s --%s' % (name, k), x[2], 'action %s' % act)
        for k in [src] + (['output'] if name in ('convert', 'select', 'bucket_to_explicit') else []):
            x = d(k)
            R.expect(x is not None and not any(str(f).startswith('-') for f in x[0]), 'options', '%s %s' % (name, k), loc, 'no positional argument')
        pos = [k for k, x in o.items() if not any(str(f).startswith('-') for f in x[0])]
        want = [k for k in ('embeddings', 'input', 'output', 'words') if k in pos]
        R.expect(pos == want, 'options', '%s: order of the paths' % name, loc, 'positional arguments %s' % pos)
        if name in ('similar', 'analogy'):
            x = d('k')
            ty = x[1].get('type') if x else None
            R.expect(None if ty is None or x is None else True if 'int' in str(ty) else False, 'options', '%s -k' % name, x[2] if x else loc, 'k is %s' % ty)
        for k, x in o.items():
            h, df = const(x[1].get('help')), const(x[1].get('default'))
            m = re.search(r"[Dd]efaults?:? *(?:to |is )?['\"`]?([\w.-]+)", h) if isinstance(h, str) else None
            if m and (isinstance(df, (str, int)) or x[1].get('default') is None and any(str(f).startswith('-') for f in x[0])):
                R.expect(str(df) == m.group(1).rstrip('.'), 'options', '%s %s: default' % (name, k), x[2], 'the default is %s, the help says %s' % (df, m.group(1)))


def line1(e):
    r = random.Random('l1|%d' % e.seed)
    w = r.choice(('a', 'A', 'é', 'a b', 'x\u00a0y', 'B.c', ''))
    e.vals[LINE] = r.choice(('', ' ')) + w + r.choice(('\n', ' \n', ''))


def similar(R, P):
    loc = main_loc(P, 'similar')
    with R.group('similar', 'queries'):
        W, r = tool(P, 'similar', {'format': C('finalfusion')})
        R.analysed(W)
        cs = calls(r, 'word_similarity')
        if len(cs) != 1:
            R.expect(False if not cs and not W.I.unknown else None, 'similar', 'one query', loc, '%d queries per line' % len(cs))
            return
        n, a, ev = cs[0]
        want = clispec(W, 'word', LINE)
        some = not_(eq(want, C('')))
        A = [some]
        ok(R, 'similar', 'query', loc, on_line(a.get('query', NONE)), want, A, line1, 'another word than that of the line')
        ok(R, 'similar', 'k', loc, a.get('k', NONE), sym('args.k', INT), [], None, 'number of answers')
        ok(R, 'similar', 'asks', loc, on_line(cond(ev)), some, [], line1, 'queries other lines than the non-empty ones')
        loads = calls(r, LOAD['finalfusion'])
        if len(loads) == 1:
            same(R, 'similar', 'embeddings', loc, a.get('self', NONE), loads[0][2].d['term'], 'the embeddings queried')
        reports(R, W, r, 'similar', 'answers', loc, ev)
        src = [e for e in walk_events(r.trace) if e.kind == 'open']
        R.expect(None if len(src) != 1 else str(src[0].d['path']) == 'args.input', 'similar', 'queries from the given file', loc,
                 'reads %s' % [str(e.d['path']) for e in src])


LINES = sym('input_lines', ('list', STR))


def on_lines(t):
    xs = [x for x in closure(t) if x.op == 'lines']
    return subst(t, {x: LINES for x in xs})


def spre(e):
    r = random.Random('sel|%d' % e.seed)
    pool = ['a', 'b', 'ab', 'é', 'ba', 'A', 'zz', 'a b']
    ws = tuple(r.sample(pool, r.choice((1, 2, 3))))
    e.vals[sym('words', ('list', STR))] = ws
    n = r.choice((0, 1, 2, 3, 4))
    src = r.choice((pool, list(ws), list(ws) + ['b']))
    e.vals[LINES] = tuple(r.choice(('', ' ')) + r.choice(src) + r.choice(('\n', ' \n')) for _ in range(n))
    e.vals[sym('word', STR)] = r.choice(pool)
    e.vals[lo], e.vals[hi] = r.choice(((2, 3), (3, 3), (3, 6), (9, 9)))
    e.vals[sym('buckets_exp', INT)] = r.choice((1, 2))
    e.vals[sym('cols', INT)] = 2
    m = r.randint(0, 2)
    e.vals[sym('ngrams', NG)] = tuple(r.sample(['<a>', 'a>', '<ab', 'zz>', 'b>'], m))
    e.vals[sym('ngram_idx', ('list', INT))] = tuple(range(m))


def select(R, P, vk):
    loc = main_loc(P, 'select')
    what = 'from ' + vk
    with R.group('select', what):
        W = World(P)
        W.I.cli = {'format': C('finalfusion')}
        e = some_embeddings(W, vk, 'NdArray', True, True, {})
        base = list(W.pc())
        W.I.stubs[public(P, LOAD['finalfusion'])] = lambda I, env, st, node: e
        E = P.cls(Q['Embeddings'])
        W.I.stubs[E.find('write').qual] = None
        keep = W.st
        W.st = keep.copy()
        w = sym('word', STR)
        q = with_spec(P, 'cli')
        fn = lambda n, *a: W.content(W.I.call_func(P.func(q + '.' + n), list(a), {}, W.st, NODE))
        want_words = fn('selected', LINES, e)
        missing = fn('unrepresentable', LINES, e)
        asked = fn('requested', LINES, w)
        emb = W.content(W.call(e, 'embedding', w).val)
        W.st = keep
        nb = len(W.st.pc)
        r = W.func('scripts.select.main')
        R.analysed(W)
        ig = sym('args.ignore_unk', BOOL)
        bad = and_(missing, not_(ig))
        ex = FALSE
        for x in r.raises:
            ex = or_(ex, on_lines(and_(*[l for l, _ in x.st.pc[nb:]])))
        if W.st.dead:
            R.expect(False, 'select', what, loc, 'always ends with an error')
            return
        ok(R, 'refuse', what, loc, on_lines(and_(*[l for l, _ in W.st.pc[nb:]])), not_(bad), base, spre, 'fails for other inputs than those with unrepresentable words')
        for e_ in walk_events(r.trace):
            if e_.kind == 'exit' and isc(e_.d['code']) and any(has(l, ig) for l, _ in e_.pc):
                R.expect(cval(e_.d['code']) not in (None, 0), 'refuse', what + ': exit status', e_.loc, 'stops with exit status %s' % e_.d['code'])
        outs, odd = messages(r.trace)
        told = [e_ for e_, f_ in outs if f_ == 'stderr']
        flags = lambda e_: [l for l, _ in e_.pc if l not in base and {x.op for x in closure(l)} <= {'or', 'and', 'not', 'sym', 'c'}]
        vb = sym('args.verbose', BOOL)
        for e_ in told:
            R.expect(implied(or_(vb, not_(ig)), flags(e_)), 'select', what + ': silence', e_.loc, 'words that are skipped are reported though --verbose was not given')
        says = [subst(and_(*flags(e_)), {vb: TRUE, ig: TRUE}) for e_ in told]
        quiet = not odd and not W.I.unknown
        R.expect((False if quiet else None) if not told else True if TRUE in says else False if all(x is FALSE for x in says) else None, 'select', what + ': report', told[0].loc if told else loc,
                 'words that are skipped are not reported though --verbose was given')
        cs = calls(r, 'write')
        if len(cs) != 1:
            R.expect(False if not cs and not W.I.unknown else None, 'select', what, loc, '%d writes' % len(cs))
            return
        n, a, ev = cs[0]
        A = base + [not_(bad)]
        ok(R, 'select', what + ': written', loc, on_lines(cond(ev)), TRUE, A, spre, 'nothing is written')
        same(R, 'select', what + ': path', loc, first(P, ev), sym('args.output', STR), 'the output path')
        o = a['self']
        md = strip_views(W.content(W.content(W.I.getattr(o, 'metadata', W.st, NODE))))
        src = strip_views(W.content(W.content(W.I.getattr(e, 'metadata', W.st, NODE))))
        for key, val in (('source_embeddings', sym('args.input', STR)), ('source_metadata', src)):
            d = {cval(x): y for x, y in md.a if isc(x)} if md.op == 'dict' else None
            got_ = d.get(key) if d is not None else None
            R.expect(False if md is NONE or md is src or d is not None and (got_ is None or isc(got_)) and len(d) == len(md.a) else True if got_ is not None and strip_views(got_) is val else None, 'select',
                     what + ': ' + key, loc, 'the metadata written is %s' % str(md)[:200])
        words = on_lines(W.content(W.attr(W.I.getattr(o, 'vocab', W.st, NODE), 'words')))
        ok(R, 'select', what + ': words', loc, words, want_words, A, spre, 'writes other words than the representable ones in order of the request')
        got = on_lines(W.content(W.call(o, 'embedding', w).val))
        sto = W.I.getattr(o, 'storage', W.st, NODE)
        ok(R, 'select', what + ': embeddings', loc, got, ite(asked, emb, NONE), A, spre, 'a selected word has another embedding than in the input')
        rows = on_lines(item(W.content(W.I.getattr(sto, 'shape', W.st, NODE)), ZERO))
        ok(R, 'select', what + ': one row per word', loc, rows, len_(want_words), A, spre, 'the matrix has another number of rows than there are words')
