"""C16: analogy queries."""
from .c15 import *
from .cli import *

RULES = {
    'best': 'the answers are the k words most similar to the normalised embedding(word2) - embedding(word1) + embedding(word3), best first',
    'permitted': 'the three query words are excluded by default, exactly the given set otherwise',
    'distinct': 'no word is returned twice',
    'own': 'each word comes with its own similarity to that vector',
    'none': 'None is returned exactly if one of the three words has no embedding',
    'accepts': 'the query never fails for a non-empty vocabulary',
    'tool': 'ffp-analogy asks for the three words of every line, with the given k, and reports queries without an answer',
    'include': 'ffp-analogy excludes exactly those query words that were not asked to be included',
    'default': 'one answer is returned if no number is given',
}
TECHNIQUE = 'value numbering of the query and of the tool\'s main against reference selections, all subsets of included words'
WS = [sym('word', STR), sym('word2', STR), sym('word3', STR)]


def run(R, P):
    with R.group('default', 'analogy'):
        default_is(R, P, 'default', 'Embeddings', 'analogy', 'k', 1)
    for vk in VOCABS:
        for st, kw in STORES:
            for sk in ('given', 'default'):
                tag = '%s/%s, skip %s' % (vk, st, sk)
                with R.group('best', tag):
                    W = World(P)
                    e = some_embeddings(W, vk, st, True, True, kw)
                    loc = methloc(P, 'Embeddings', 'analogy')
                    keep = W.st
                    W.st = keep.copy()
                    embs = [W.content(W.call(e, 'embedding', w).val) for w in WS]
                    W.st = keep
                    nb = len(W.st.pc)
                    base = W.pc() + [lt(ZERO, len_(sym('words', ('list', STR))))]
                    r = W.call(e, 'analogy', *WS, k=k_, **({'skip': skip_} if sk == 'given' else {}))
                    R.analysed(W)
                    ok(R, 'accepts', tag, loc, and_(*[l for l, _ in W.st.pc[nb:]]) if not W.st.dead else FALSE, TRUE, base, pre, 'the query fails')
                    if W.st.dead:
                        continue
                    got = W.content(r.val)
                    miss = or_(*[isnone(x) for x in embs])
                    ok(R, 'none', tag, loc, isnone(got), miss, base, pre, 'None for another condition than a missing embedding')
                    have = [not_(isnone(x)) for x in embs]
                    a, b, c = [assume_lits(x, have) for x in embs]
                    d = add(sub(b, a), c)
                    nd = mk('norm', d, NONE)
                    q = div(d, nd)
                    judge_results(R, W, tag, loc, e, assume_lits(got, have), q, k_, skip_ if sk == 'given' else mk('set', *WS), base + have + [not_(eq(nd, ZERO))])
    tool_runs(R, P)


def lines3(e):
    r = random.Random('l3|%d' % e.seed)
    ws = [r.choice(('a', 'A', 'B', 'bB', 'É', 'c', 'é', 'a-b', 'x.y', ',a')) for _ in range(3)]
    e.vals[LINE] = r.choice(('', ' ')) + r.choice((' ', '\t', '  ')).join(ws) + r.choice(('\n', ' \n', ''))


def clispec(W, fn, *args):
    q = with_spec(W.prog, 'cli')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


def tool_runs(R, P):
    loc = main_loc(P, 'analogy')
    for bits in range(8):
        inc = [x for j, x in enumerate('abc') if bits >> j & 1]
        for order in ([inc, inc[::-1]] if len(inc) > 1 else [inc]):
            what = 'including %s' % (', '.join(order) or 'nothing')
            with R.group('include', what):
                W, r = tool(P, 'analogy', {'format': C('finalfusion'), 'include': lst(*[C(x) for x in order])})
                R.analysed(W)
                cs = calls(r, 'analogy')
                if len(cs) != 1:
                    R.expect(False if not cs and not W.I.unknown else None, 'tool', what, loc, '%d analogy queries per line' % len(cs))
                    continue
                n, a, ev = cs[0]
                toks = clispec(W, 'words3', LINE)
                for j, p in enumerate(('word1', 'word2', 'word3')):
                    ok(R, 'tool', '%s: %s' % (what, p), loc, on_line(a.get(p, NONE)), item(toks, C(j)), [], lines3, 'query word %d' % (j + 1))
                ok(R, 'tool', '%s: k' % what, loc, a.get('k', NONE), sym('args.k', INT), [], None, 'number of answers')
                want = clispec(W, 'excluded', item(toks, ZERO), item(toks, ONE), item(toks, C(2)), *[C(x in inc) for x in 'abc'])
                ok(R, 'include', what, loc, on_line(a.get('skip', NONE)), want, [], lines3, 'excluded words')
                reports(R, W, r, 'tool', what, loc, ev)


def messages(trace):
    """(event, stream) of everything printed, and the calls that may print in another way"""
    out, odd = [], []
    for e in walk_events(trace):
        if e.kind == 'print':
            f = e.d.get('file')
            if f is not None and has(f, mk('ext', 'sys.stderr')):
                out.append((e, 'stderr'))
            elif f in (None, NONE, mk('ext', 'sys.stdout')):
                out.append((e, 'stdout'))
            else:
                odd.append(e)
        elif e.kind == 'extcall':
            n = str(e.d['name'])
            if n in ('sys.stderr.write', 'sys.stderr.writelines'):
                out.append((e, 'stderr'))
            elif n in ('sys.stdout.write', 'sys.stdout.writelines'):
                out.append((e, 'stdout'))
            elif not n.startswith(('argparse', 'sys.stdout.flush', 'sys.stderr.flush')):
                odd.append(e)
    return out, odd


def reports(R, W, r, rule, what, loc, ev):
    """every answered query is printed to stdout, every unanswered one reported to stderr"""
    res = ev.d['term']
    for lp in walk_events(r.trace):
        if lp.kind == 'loop' and lp.body and any(x is ev for x in walk_events(lp.body)):
            R.expect(True if lp.d.get('brk') in (None, FALSE) else False, rule, '%s: every line' % what, lp.loc or loc, 'stops reading queries if %s' % str(lp.d.get('brk'))[:200])
            for x in walk_events(lp.body):
                if x.kind == 'return' and x.fn == lp.fn and x.loc[2] == lp.loc[2]:
                    R.expect(False, rule, '%s: every line' % what, x.loc, 'stops reading queries if %s' % str(cond(x))[:200])
    outs, odd = messages(r.trace)
    prints = [(e, f) for e, f in outs if has(cond(e), res) or any(has(x, res) for x in e.d.values() if isinstance(x, T))]
    # printed later, in a form whose connection to the answer is not seen
    order = {id(e): k for k, e in enumerate(walk_events(r.trace))}
    odd = odd + [e for e, f in outs if order[id(e)] > order[id(ev)] and not any(e is x for x, _ in prints)]
    none, some = FALSE, FALSE
    for e, f in prints:
        if f == 'stderr':
            none = or_(none, cond(e))
        else:
            some = or_(some, cond(e))
    base = [l for l, _ in ev.pc]
    na = sym('no_answer', BOOL)
    for got, want, txt in ((none, na, 'a query without an answer is not reported'), (some, not_(na), 'answers are not printed')):
        v = equal(subst(assume_lits(got, base), {isnone(res): na}), want, [subst(l, {isnone(res): na}) for l in base], pre=None)
        if v is False and odd:
            v = None
        R.expect(v, rule, '%s: %s' % (what, txt.split(' is')[0].split(' are')[0]), loc, '%s: %s' % (txt, str(got)[:200]))
