"""C14: subword hashes follow the fastText and finalfusion definitions."""
from .subw import *
from ffsa import cfront
from ffsa.equiv import Env

RULES = {
    'hash': 'indexing one n-gram equals the reference hash (finalfusion: 64-bit FNV-1a over the little-endian character count and code points, low bits; '
            'fastText: 32-bit FNV-1a over sign-extended UTF-8 bytes, modulo the buckets), on little- and big-endian hosts',
    'bulk': 'subword_indices() gives the reference hashes of the word\'s n-grams plus the offset, on little- and big-endian hosts',
    'fnv': 'the bundled C function that is linked in computes 64-bit FNV-1a for every buffer',
    'explicit': 'an explicit indexer gives every n-gram the index of its table and no other n-gram an index',
    'params': 'the indexer keeps the bucket parameter it was created with',
}
TECHNIQUE = 'value numbering of hash code (Cython and the bundled C via clang AST) against reference functions'


def run(R, P):
    for k in HASH:
        par = sym(PARAM[k], INT)
        for order in ('little', 'big'):
            Env.big = order == 'big'
            try:
                with R.group('hash', '%s (%s-endian)' % (k, order)):
                    W, ix = indexer(P, k, byteorder=order)
                    got = W.content(W.call(ix, '__call__', word).val)
                    R.analysed(W)
                    expect_same(R, 'hash', '%s (%s-endian)' % (k, order), methloc(P, k, '__call__'), got, spec_call(P, HASH[k], word, par), W.pc())
                with R.group('bulk', '%s (%s-endian)' % (k, order)):
                    W, ix = indexer(P, k, byteorder=order)
                    got = W.content(W.call(ix, 'subword_indices', word, off, br, wn).val)
                    R.analysed(W)
                    expect_same(R, 'bulk', '%s (%s-endian)' % (k, order), methloc(P, k, 'subword_indices'), got,
                                spec_call(P, BULK[k], word, lo, hi, par, off, br, wn), W.pc())
            finally:
                Env.big = False
        with R.group('params', k):
            W, ix = indexer(P, k)
            expect_same(R, 'params', k, methloc(P, k, '__init__'), W.attr(ix, PARAM[k]), par, W.pc())
    k = 'ExplicitIndexer'
    for m in ('__call__', '__getitem__'):
        with R.group('explicit', m):
            W, ix = indexer(P, k)
            r = W.call(ix, m, word)
            got = W.content(r.val)
            R.analysed(W)
            ng, ids = W.words('ngrams'), sym('ngram_idx', ('list', INT))
            exists_in = mk('in', word, ng)
            want = spec_call(P, 'table_get', word, ng, ids)
            expect_same(R, 'explicit', m, methloc(P, k, m), got, want, W.pc() + ([exists_in] if m == '__getitem__' else []))
    with R.group('fnv', 'fnv_64a_buf'):
        buf, n, h = sym('buf', BYTES), sym('len', INT), sym('hval', INT)
        RNG[n], RNG[h] = (0, 2**32), (0, 2**64 - 1)
        W = World(P)
        q = cfront.load(P, P.repo, 'src/fnv/hash_64a.c', 'fnv_64a_buf')
        got = W.content(W.I.call_func(P.func(q), [buf, n, h], {}, W.st, NODE))
        R.analysed(W)

        def pre(e):
            r = random.Random('fnv|%d' % e.seed)
            m = r.randint(0, 9)
            e.vals[buf] = bytes(r.randrange(256) for _ in range(m))
            e.vals[n] = r.randint(0, m)
            e.vals[h] = r.choice((0, 1, 2**63, 2**64 - 1, 14695981039346656037, r.randrange(2**64)))
        want = spec_call(P, 'c_fnv', buf, n, h)
        v = equal(got, want, [], pre=pre)
        R.expect(v, 'fnv', 'fnv_64a_buf', ('src/fnv/hash_64a.c', 0, 'fnv_64a_buf'), 'differs from 64-bit FNV-1a: %s' % (differ(got, want, [], pre=pre) if v is False else str(got)[:200]))
