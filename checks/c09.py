"""C09: word indices first, subword indices after, all below the bound."""
from .subw import *
from ffsa.terms import CFG

RULES = {
    'position': 'a known word\'s index (by item access, idx() and the word index) is its position in the word list, the very first word included',
    'range': 'every subword index handed out by subword_indices(), item access or idx() lies between the number of words and the upper bound',
    'bound': 'the upper bound is the number of words plus the indexer\'s bound, which is 2^exponent, the bucket count or the number of distinct table indices',
    'reduce': 'the index of a single n-gram is at least zero and below the indexer\'s bound',
    'table': 'an explicit indexer accepts a table exactly if it indexes all and only the (distinct) n-grams and its values are exactly 0..bound-1; without a table n-grams are numbered by position',
}
TECHNIQUE = 'value numbering and acceptance-condition extraction against reference predicates'
i_ = sym('i', INT)
RNG[i_] = (0, 2**40)
keys, vals = sym('table_keys', ('list', STR)), sym('table_values', ('list', INT))
NG = ('list', STR)


def vspec(W, fn, *args):
    q = with_spec(W.prog, 'vocab')
    return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))


def pre_pos(e):
    samples(e)
    r = random.Random('pos|%d' % e.seed)
    n = r.randint(1, 4)
    ws = []
    while len(ws) < n:
        w = ''.join(r.choice('abé') for _ in range(r.randint(1, 3)))
        if w not in ws:
            ws.append(w)
    e.vals[sym('words', ('list', STR))] = tuple(ws)
    e.vals[i_] = r.choice((0, 0, n - 1, r.randrange(n)))
    if r.random() < .3:
        e.vals[word] = ws[0]


def pre_range(e):
    """the same with empty vocabularies and very few buckets"""
    pre_pos(e)
    r = random.Random('range|%d' % e.seed)
    if r.random() < .2:
        e.vals[sym('words', ('list', STR))] = ()
    if r.random() < .4:
        e.vals[sym('buckets_exp', INT)] = r.randint(0, 1)
        e.vals[sym('n_buckets', INT)] = r.randint(1, 2)


def pre_table(e):
    r = random.Random('tab|%d' % e.seed)
    ng = r.sample(['aa', 'ab', 'abc', 'b', 'é', '<a', 'a>', 'xyz'], r.randint(0, 5))
    if r.random() < .15 and ng:
        ng.append(ng[0])
    ks = list(dict.fromkeys(ng))
    r.shuffle(ks)
    m = r.random()
    if m < .12 and ks:
        ks[-1] = 'other'
    elif m < .2:
        ks.append('other')
    elif m < .28 and ks:
        ks.pop()
    vs = []
    for _ in ks:
        vs.append(r.randint(0, max(vs) + 1) if vs else 0)
    r.shuffle(vs)
    m = r.random()
    if vs:
        j = r.randrange(len(vs))
        if m < .1:
            vs[j] += 1
        elif m < .2:
            vs[j] = -1
        elif m < .3:
            vs = [v + 1 for v in vs]
        elif m < .33:
            vs = [-1 if v == 0 else v for v in vs]
        elif m < .37:
            vs = [v - 1 for v in vs]
        elif m < .45:
            vs[j] = max(vs) + 2
        elif m < .5:
            vs = [v * 2 for v in vs]
        elif m < .55:
            vs = [len(vs)] * len(vs)
    e.vals[sym('ngrams', NG)] = tuple(ng)
    e.vals[keys], e.vals[vals] = tuple(ks), tuple(vs)
    a = r.choice((1, 2))
    e.vals[lo], e.vals[hi] = a, a + r.choice((0, 2))


def accept(W):
    """the condition under which everything analysed so far returned normally"""
    return and_(*[l for l in W.pc()])


def ok(R, rule, what, loc, got, want, A, pre, why, n=100):
    v = equal(got, want, A, pre=pre, want=n)
    d = differ(got, want, A, pre=pre, want=n) if v is False else ''
    R.expect(v, rule, what, loc, '%s: %s' % (why, str(d)[:400]) if v is False else 'not comparable')


def run(R, P):
    CFG['distinct'] = False
    try:
        _run(R, P)
    finally:
        CFG['distinct'] = True


def vocab(P, k):
    W = World(P)
    return W, W.vocab(k)


def _run(R, P):
    for k in VOCABS:
        words = sym('words', ('list', STR))
        loc = methloc(P, k, '__init__')
        for m in ('__getitem__', 'idx', 'word_index'):
            with R.group('position', '%s.%s' % (k, m)):
                W, v = vocab(P, k)
                w = item(words, i_)
                got = W.content(W.call(v, m, w).val) if m != 'word_index' else W.content(W.call(W.I.getattr(v, m, W.st, NODE), 'get', w).val)
                R.analysed(W)
                ok(R, 'position', '%s.%s' % (k, m), methloc(P, k, m), got, i_, W.pc() + [lt(i_, len_(words))], pre_pos, 'index of the i-th word')
        with R.group('bound', k):
            W, v = vocab(P, k)
            ub = W.attr(v, 'upper_bound')
            n = len_(words)
            if k != 'SimpleVocab':
                ix = W.I.getattr(v, 'subword_indexer', W.st, NODE)
                n = add(n, W.attr(ix, 'upper_bound'))
            R.analysed(W)
            ok(R, 'bound', k, methloc(P, k, 'upper_bound'), ub, n, W.pc(), pre_pos, 'upper bound')
        if k == 'SimpleVocab':
            continue
        for m in ('subword_indices', '__getitem__', 'idx'):
            with R.group('range', '%s.%s' % (k, m)):
                W, v = vocab(P, k)
                r = W.call(v, m, word)
                got = W.content(r.val)
                unknown = [] if m == 'subword_indices' else [mk('isnone', vspec(W, 'position', words, word))]
                if m == 'idx':
                    unknown.append(not_(isnone(got)))
                n = len_(words)
                good = vspec(W, 'within', got, n, W.attr(v, 'upper_bound'))
                R.analysed(W)
                ok(R, 'range', '%s.%s' % (k, m), methloc(P, k, m), good, TRUE, W.pc() + unknown, pre_range, 'subword index outside [number of words, upper bound)')
    want = {'FinalfusionHashIndexer': lambda W: vspec_pow(W), 'FastTextIndexer': lambda W: sym('n_buckets', INT)}
    for k in INDEXERS:
        with R.group('bound', k):
            W, ix = indexer(P, k)
            b = want[k](W) if k in want else vspec(W, 'table_bound', W.I.getattr(ix, 'ngram_index', W.st, NODE))
            ok(R, 'bound', k, methloc(P, k, 'upper_bound'), W.attr(ix, 'upper_bound'), b, W.pc(), samples, 'bound')
        with R.group('reduce', k):
            W, ix = indexer(P, k)
            got = W.content(W.call(ix, '__call__', word).val)
            ub = W.attr(ix, 'upper_bound')
            R.analysed(W)
            ok(R, 'reduce', k, methloc(P, k, '__call__'), and_(le(ZERO, got), lt(got, ub)), TRUE, W.pc() + [not_(isnone(got))], samples, 'index outside [0, bound)')
    k = 'ExplicitIndexer'
    loc = methloc(P, k, '__init__')
    ng = sym('ngrams', NG)
    with R.group('table', 'accepted tables'):
        W = World(P)
        b = fresh_binder()
        d = qdmap(len_(keys), b, item(keys, b), item(vals, b))
        RNG[lo] = RNG[hi] = (1, 2**32 - 1)
        ix = W.new(k, ng, lo, hi, d)
        acc = accept(W)
        R.analysed(W)
        W2 = World(P)
        good = and_(le(lo, hi), vspec(W2, 'covers', ng, vspec(W2, 'table', keys, vals)))
        ok(R, 'table', 'accepted tables', loc, acc, good, [], pre_table, 'a table is accepted/refused against the rule')
        W3 = World(P)
        ok(R, 'table', 'bound', loc, W.attr(ix, 'upper_bound'), vspec(W3, 'table_bound', vspec(W3, 'table', keys, vals)), [acc, good], pre_table, 'bound of an accepted table')
        ok(R, 'table', 'table kept', loc, W.attr(ix, 'ngram_index'), vspec(W3, 'table', keys, vals), [acc, good], pre_table, 'table')
        ok(R, 'table', 'n-gram list kept', loc, W.attr(ix, 'ngrams'), ng, [acc, good], pre_table, 'n-grams')
    with R.group('table', 'default numbering'):
        W = World(P)
        ix = W.new(k, ng, lo, hi)
        acc = accept(W)
        W2 = World(P)
        good = and_(le(lo, hi), vspec(W2, 'duplicate_free', ng))
        ok(R, 'table', 'default numbering: accepted', loc, acc, good, [], pre_table, 'an n-gram list is accepted/refused against the rule')
        idx = mk('map', len_(ng), mk('bv', 1), 1)
        ok(R, 'table', 'default numbering: table', loc, W.attr(ix, 'ngram_index'), vspec(W2, 'table', ng, idx), [acc], pre_table, 'numbering')
        ok(R, 'table', 'default numbering: bound', loc, W.attr(ix, 'upper_bound'), len_(ng), [acc], pre_table, 'bound')


def vspec_pow(W):
    return mk('shl', ONE, sym('buckets_exp', INT))
