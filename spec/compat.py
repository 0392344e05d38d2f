"""Reference statements about exported vectors (analysed, never executed)."""


def word_list(embeds):
    return [w for w in embeds.vocab.words]


def vectors(embeds):
    """the vector of every known word as it was before normalisation"""
    if embeds.norms is None:
        return [embeds.storage[i] for i in range(len(embeds.vocab.words))]
    return [embeds.storage[i] * embeds.norms[i] for i in range(len(embeds.vocab.words))]


def columns(embeds):
    return embeds.storage.shape[1]


def all_rows(embeds):
    return [embeds.storage[i] for i in range(embeds.storage.shape[0])]


def norm_list(embeds):
    return [embeds.norms[i] for i in range(len(embeds.vocab.words))] if embeds.norms is not None else [1 for w in embeds.vocab.words]


def subword_lists(vocab):
    return [vocab.subword_indices(w) for w in vocab.words]


def indexer(vocab):
    return (vocab.subword_indexer.n_buckets, vocab.min_n, vocab.max_n)
