"""Command-line tools: analysed from main() with the parsed options as symbols."""
from .c11 import *
from ffsa.interp import walk_events

FORMATS = ('finalfusion', 'fasttext', 'word2vec', 'textdims', 'text')
LOAD = {'finalfusion': 'load_finalfusion', 'fasttext': 'load_fasttext', 'word2vec': 'load_word2vec', 'textdims': 'load_text_dims', 'text': 'load_text'}
WRITE = {'fasttext': 'write_fasttext', 'word2vec': 'write_word2vec', 'textdims': 'write_text_dims', 'text': 'write_text'}
METHODS = ('write', 'analogy', 'word_similarity', 'embedding_similarity', 'bucket_to_explicit')


def public(P, name):
    """the function a user gets by its public name"""
    from ffsa.program import AnalysisBroken
    c = sorted(q for q, f in P.funcs.items() if q.startswith('finalfusion.') and q.split('.')[-1] == name and getattr(f, 'cls', None) is None)
    if not c:
        raise AnalysisBroken('no function %s' % name)
    return c[0]


def tool(P, name, given, keep=()):
    """analyse the tool's main; returns (world, result)"""
    W = World(P)
    W.I.cli = dict(given)
    for n in list(LOAD.values()) + list(WRITE.values()):
        if n not in keep:
            W.I.stubs[public(P, n)] = None
    E = P.cls(Q['Embeddings'])
    for m in METHODS:
        if m not in keep:
            f = E.find(m)
            if f is not None and not isinstance(f, str):
                W.I.stubs[f.qual] = None
    emb = ('cls', frozenset((E.qual,)))
    for n in LOAD.values():
        W.I.stubtypes[public(P, n)] = emb
    W.I.stubtypes[E.find('bucket_to_explicit').qual] = emb
    r = W.func('scripts.%s.main' % name)
    return W, r


def calls(r, *names):
    """recorded calls in order: (short name, argument dictionary, event)"""
    out = []
    for e in walk_events(r.trace):
        if e.kind == 'call':
            n = e.d['qual'].split('.')[-1]
            if not names or n in names:
                out.append((n, dict((k, v) for k, v in e.d['args'] if k), e))
    return out


def line_of(t):
    """the terms denoting the line read in an iteration"""
    return [x for x in closure(t) if x.op == 'item' and x.a[0].op in ('lines', 'rest')]


LINE = sym('line', STR)


def on_line(t):
    """the term as a function of the current line"""
    return subst(t, {x: LINE for x in line_of(t)})


def main_loc(P, name):
    return fnloc(P, 'finalfusion.scripts.%s.main' % name)


def cond(e):
    return and_(*[l for l, _ in e.pc])
