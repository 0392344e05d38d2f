"""Reference n-gram extraction and n-gram hashes (analysed, never executed)."""
import struct


def bracketed(word, bracket):
    return '<' + word + '>' if bracket else word


def ngrams(word: str, min_n: int, max_n: int, bracket: bool):
    text = bracketed(word, bracket)
    out = []
    for start in range(len(text)):
        for n in range(max_n, min_n - 1, -1):
            if start + n <= len(text):
                out.append(text[start:start + n])
    return out


def fnv1a_64(data, h):
    for byte in data:
        h = ((h ^ byte) * 1099511628211) % 18446744073709551616
    return h


def finalfusion_hash(ngram: str, exponent: int):
    """64-bit FNV-1a of the character count and the code points, masked"""
    h = fnv1a_64(struct.pack('<Q', len(ngram)), 14695981039346656037)
    for char in ngram:
        h = fnv1a_64(struct.pack('<I', ord(char)), h)
    return h % 2**exponent


def fasttext_hash(ngram: str, buckets: int):
    """32-bit FNV-1a of the sign-extended UTF-8 bytes, modulo the bucket count"""
    h = 2166136261
    for byte in ngram.encode('utf8'):
        extended = byte if byte < 128 else byte + 4294967040
        h = ((h ^ extended) * 16777619) % 4294967296
    return h % buckets


def finalfusion_indices(word: str, min_n: int, max_n: int, exponent: int, offset: int, bracket: bool, with_ngrams: bool):
    if with_ngrams:
        return [(n, finalfusion_hash(n, exponent) + offset) for n in ngrams(word, min_n, max_n, bracket)]
    return [finalfusion_hash(n, exponent) + offset for n in ngrams(word, min_n, max_n, bracket)]


def fasttext_indices(word: str, min_n: int, max_n: int, buckets: int, offset: int, bracket: bool, with_ngrams: bool):
    if with_ngrams:
        return [(n, fasttext_hash(n, buckets) + offset) for n in ngrams(word, min_n, max_n, bracket)]
    return [fasttext_hash(n, buckets) + offset for n in ngrams(word, min_n, max_n, bracket)]


def explicit_indices(word: str, min_n: int, max_n: int, table, offset: int, bracket: bool, with_ngrams: bool):
    out = []
    for n in ngrams(word, min_n, max_n, bracket):
        if n in table:
            out.append((n, table[n] + offset) if with_ngrams else table[n] + offset)
    return out


def indexed(word: str, min_n: int, max_n: int, indexer, offset: int, bracket: bool, with_ngrams: bool):
    """n-grams of the word with what indexing each single one gives"""
    out = []
    for n in ngrams(word, min_n, max_n, bracket):
        idx = indexer(n)
        if idx is not None:
            out.append((n, idx + offset) if with_ngrams else idx + offset)
    return out


def c_fnv(data, n: int, h: int):
    return fnv1a_64(data[:n], h)


def table_get(ngram: str, ngrams, indices):
    table = {}
    for i in range(len(ngrams)):
        table[ngrams[i]] = indices[i]
    return table.get(ngram)
