"""Symbolic embeddings for the checks."""
from .common import *


def some_embeddings(W, vocab='FastTextVocab', storage='NdArray', norms=True, metadata=True, skw={}, tag=''):
    v = W.vocab(vocab, tag)
    n = W.attr(v, 'upper_bound')
    s = W.storage(storage, n, **(dict(skw, name='matrix' + tag, cols=W.int('cols' + tag, 1, 2**32 - 1)) if tag else skw))
    nm = W.norms(n=len_(W.attr(v, 'words')), name='norms' + tag) if norms else NONE
    md = W.metadata('metadata' + tag) if metadata else NONE
    return W.new('Embeddings', s, v, nm, md)
