"""Reference statements about vocabularies and indexers (analysed, never executed)."""


def within(indices, low: int, high: int):
    return all(low <= i < high for i in indices)


def position(words, item: str):
    """the index of a word: its position; None if unknown"""
    index = {}
    for i in range(len(words)):
        index[words[i]] = i
    return index.get(item)


def duplicate_free(items):
    return len(set(items)) == len(items)


def table(keys, values):
    out = {}
    for i in range(len(keys)):
        out[keys[i]] = values[i]
    return out


def covers(ngrams, index):
    """the table indexes exactly the n-grams and its values are exactly 0..bound-1"""
    values = set(index.values())
    return len(set(ngrams)) == len(ngrams) and set(ngrams) == set(index) and values == set(range(len(values)))


def table_bound(index):
    return len(set(index.values()))


def numbered(words):
    index = {}
    for i in range(len(words)):
        index[words[i]] = i
    return index


def member(words, item: str):
    return item in set(words)


def members(words, items):
    known = set(words)
    return all(w in known for w in items)


def as_list(x):
    out = []
    for y in x:
        out.append(y)
    return out


def same(a, b):
    return a == b


def differs(a, b):
    return a != b
