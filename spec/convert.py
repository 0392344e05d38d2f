"""Reference statements about the bucket-to-explicit conversion (analysed, never executed)."""


def buckets_used(vocab, indexer):
    used = set()
    for word in vocab.words:
        for ngram in vocab.subwords(word):
            used.add(indexer(ngram))
    return len(used)


def ngrams_used(vocab):
    used = set()
    for word in vocab.words:
        for ngram in vocab.subwords(word):
            used.add(ngram)
    return used


def as_set(items):
    return set(items)
