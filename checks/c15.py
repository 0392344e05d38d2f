"""C15: similarity queries."""
from .c11 import *
from ffsa.terms import assume_lits

RULES = {
    'best': 'the similarities returned are the k largest dot products among the permitted words, from most to least similar',
    'permitted': 'no skipped word and nothing but known words is returned',
    'distinct': 'no word is returned twice',
    'own': 'each word comes with the dot product of its own row and the query',
    'none': 'a query word without an embedding gives None, every other query a list',
    'query': 'a word query is the embedding query for that word\'s embedding with the word itself excluded',
    'accepts': 'the query never fails for a non-empty vocabulary and a query of the right length',
    'default': 'ten neighbours are returned if no number is given',
}
TECHNIQUE = 'value numbering of the query path (partition, filter and order as sequence terms) against reference selections'
k_, skip_, w_ = sym('k', INT), sym('skip', ('set', STR)), sym('word', STR)
RNG[k_] = (0, 2**40)
query_ = sym('query', ND)
NOTNONE.add(skip_)


def pre(e):
    r = random.Random('sim|%d' % e.seed)
    n = r.choice((1, 2, 3, 4, 4, 5))
    ws = tuple(r.sample(['a', 'b', 'ab', 'é', 'ba', 'abc'], n))
    e.vals[sym('words', ('list', STR))] = ws
    e.vals[k_] = r.choice((0, 1, 1, 2, 2, 3, 4, 7, 10))
    e.vals[skip_] = frozenset(r.sample(ws + ('zz', 'é>'), min(len(ws) + 2, r.choice((0, 1, 1, 2, 3)))))
    for nm in ('word', 'word2', 'word3'):
        e.vals[sym(nm, STR)] = r.choice(ws + ('zz', 'abab', 'b'))
    e.vals[lo], e.vals[hi] = r.choice(((1, 2), (2, 3), (3, 3), (3, 6), (9, 9)))
    e.vals[sym('buckets_exp', INT)] = r.choice((1, 2))
    e.vals[sym('n_buckets', INT)] = r.choice((1, 2, 3))
    e.vals[sym('cols', INT)] = 2
    e.vals[sym('quantized_len', INT)] = r.choice((1, 2))
    e.vals[sym('sub_len', INT)] = 2 // e.vals[sym('quantized_len', INT)]
    e.vals[sym('n_centroids', INT)] = 3
    m = r.randint(0, 2)
    e.vals[sym('ngrams', NG)] = tuple(r.sample(['<a', 'a>', 'ab', 'zz', 'b'], m))
    e.vals[sym('ngram_idx', ('list', INT))] = tuple(range(m))


def sspec(W, fn, *args):
    q = with_spec(W.prog, 'similarity')
    keep = W.st
    W.st = keep.copy()
    try:
        return W.content(W.I.call_func(W.prog.func(q + '.' + fn), list(args), {}, W.st, NODE))
    finally:
        W.st = keep


def judge_results(R, W, tag, loc, e, got, query, k, skip, A, pre=pre, n=60):
    """got: term of the returned list (on the models satisfying A)"""
    v = W.I.getattr(e, 'vocab', W.st, NODE)
    s = W.I.getattr(e, 'storage', W.st, NODE)
    words = W.content(W.attr(v, 'words'))
    idx = W.attr(v, 'word_index')
    scores = sspec(W, 'result_scores', got)
    ok(R, 'best', tag, loc, scores, sspec(W, 'best_scores', words, s, query, k, skip), A, pre, 'not the best scores in descending order', n)
    ok(R, 'permitted', tag, loc, sspec(W, 'permitted', got, words, skip), TRUE, A, pre, 'a word that is skipped or unknown is returned', n)
    ok(R, 'distinct', tag, loc, sspec(W, 'distinct', got), TRUE, A, pre, 'a word is returned twice', n)
    known = [sspec(W, 'permitted', got, words, mk('set'))]
    ok(R, 'own', tag, loc, scores, sspec(W, 'own_scores', got, idx, s, query), A + known, pre, 'a word comes with another score than its own', n)


STORES = (('NdArray', {}), ('QuantizedArray', {'projection': None, 'norms': None}))


def run(R, P):
    for m in ('word_similarity', 'embedding_similarity'):
        with R.group('default', m):
            default_is(R, P, 'default', 'Embeddings', m, 'k', 10)
    for vk in VOCABS:
        for st, kw in STORES:
            for sk in ('given', 'default'):
                tag = '%s/%s, skip %s' % (vk, st, sk)
                with R.group('best', 'embedding_similarity ' + tag):
                    W = World(P)
                    e = some_embeddings(W, vk, st, True, True, kw)
                    W.I.keyerrors = True
                    loc = methloc(P, 'Embeddings', 'embedding_similarity')
                    q = W.array('query', (sym('cols', INT) if st == 'NdArray' else mul(sym('quantized_len', INT), sym('sub_len', INT)),))
                    nb = len(W.st.pc)
                    base = W.pc() + [lt(ZERO, len_(sym('words', ('list', STR))))]
                    r = W.call(e, 'embedding_similarity', q, k_, *([skip_] if sk == 'given' else []))
                    R.analysed(W)
                    ok(R, 'accepts', tag, loc, and_(*[l for l, _ in W.st.pc[nb:]]) if not W.st.dead else FALSE, TRUE, base, pre, 'the query fails')
                    if W.st.dead:
                        continue
                    ok(R, 'none', tag, loc, isnone(r.val), FALSE, base, pre, 'None for an embedding')
                    judge_results(R, W, 'embedding_similarity: ' + tag, loc, e, r.val, q, k_, skip_ if sk == 'given' else mk('set'), base)
            tag = '%s/%s' % (vk, st)
            with R.group('query', tag):
                W = World(P)
                e = some_embeddings(W, vk, st, True, True, kw)
                loc = methloc(P, 'Embeddings', 'word_similarity')
                keep = W.st
                W.st = keep.copy()
                emb = W.content(W.call(e, 'embedding', w_).val)
                W.st = keep
                nb = len(W.st.pc)
                base = W.pc() + [lt(ZERO, len_(sym('words', ('list', STR))))]
                r = W.call(e, 'word_similarity', w_, k_)
                R.analysed(W)
                ok(R, 'accepts', 'word_similarity: ' + tag, loc, and_(*[l for l, _ in W.st.pc[nb:]]) if not W.st.dead else FALSE, TRUE, base, pre, 'the query fails')
                if W.st.dead:
                    continue
                got = W.content(r.val)
                ok(R, 'none', tag, loc, isnone(got), isnone(emb), base, pre, 'None for another condition than a missing embedding')
                has_emb = base + [not_(isnone(emb))]
                judge_results(R, W, 'word_similarity: ' + tag, loc, e, assume_lits(got, [not_(isnone(emb))]), emb, k_, mk('set', w_), has_emb)
