"""Reference statements about embedding lookups (analysed, never executed)."""
import numpy as np


def index_of(words, word: str):
    index = {}
    for i in range(len(words)):
        index[words[i]] = i
    return index.get(word)


def found(words, subs, word: str):
    return index_of(words, word) is not None or len(subs) > 0


def vector(words, rows, subs, word: str):
    idx = index_of(words, word)
    if idx is not None:
        return rows[idx]
    total = np.sum(rows[subs], axis=0)
    length = np.linalg.norm(total)
    if length == 0:
        return total
    return total / length


def length(words, rows, norms, subs, word: str):
    idx = index_of(words, word)
    if idx is not None:
        return norms[idx]
    return np.linalg.norm(np.sum(rows[subs], axis=0))
