"""The published finalfusion file format, as reference readers and writers.

Analysed (never executed) by the same engine as the repository code: the
repository's writers are aligned with these readers and these writers with the
repository's readers.
"""
import struct

import numpy as np


def u32(file):
    return struct.unpack('<I', file.read(4))[0]


def u64(file):
    return struct.unpack('<Q', file.read(8))[0]


def read_words(file, n):
    out = []
    for _ in range(n):
        length = u32(file)
        out.append(file.read(length).decode('utf8'))
    return out


def put_words(file, words):
    for word in words:
        data = word.encode('utf8')
        file.write(struct.pack('<I', len(data)))
        file.write(data)


def skip_padding(file):
    file.seek(4 - file.tell() % 4, 1)


def put_padding(file):
    file.write(b'\0' * (4 - file.tell() % 4))


# ---- readers (the whole chunk, header included)
def read_Header(file):
    magic = file.read(4)
    version = u32(file)
    n = u32(file)
    ids = list(struct.unpack('<%dI' % n, file.read(4 * n)))
    return magic, version, ids


def read_SimpleVocab(file):
    ident = u32(file)
    size = u64(file)
    n = u64(file)
    return ident, read_words(file, n)


def read_hash_vocab(file):
    ident = u32(file)
    size = u64(file)
    n = u64(file)
    min_n = u32(file)
    max_n = u32(file)
    buckets = u32(file)
    return ident, read_words(file, n), min_n, max_n, buckets


def read_ExplicitVocab(file):
    ident = u32(file)
    size = u64(file)
    n_words = u64(file)
    n_ngrams = u64(file)
    min_n = u32(file)
    max_n = u32(file)
    words = read_words(file, n_words)
    ngrams = []
    indices = []
    for _ in range(n_ngrams):
        length = u32(file)
        ngrams.append(file.read(length).decode('utf8'))
        indices.append(u64(file))
    return ident, words, min_n, max_n, ngrams, indices


def read_NdArray(file):
    ident = u32(file)
    size = u64(file)
    rows = u64(file)
    cols = u32(file)
    type_id = u32(file)
    skip_padding(file)
    data = np.fromfile(file, np.float32, rows * cols).reshape((rows, cols))
    return ident, rows, cols, type_id, data


def read_Norms(file):
    ident = u32(file)
    size = u64(file)
    n = u64(file)
    type_id = u32(file)
    skip_padding(file)
    data = np.fromfile(file, np.float32, n)
    return ident, n, type_id, data


def read_QuantizedArray(file):
    ident = u32(file)
    size = u64(file)
    projection = u32(file)
    norms = u32(file)
    quantized_len = u32(file)
    reconstructed_len = u32(file)
    n_centroids = u32(file)
    n_rows = u64(file)
    code_type = u32(file)
    float_type = u32(file)
    skip_padding(file)
    proj = None
    if projection != 0:
        proj = np.fromfile(file, np.float32, reconstructed_len * reconstructed_len).reshape((reconstructed_len, reconstructed_len))
    size = n_centroids * reconstructed_len
    quantizers = np.fromfile(file, np.float32, size).reshape((quantized_len, n_centroids, reconstructed_len // quantized_len))
    scale = None
    if norms != 0:
        scale = np.fromfile(file, np.float32, n_rows)
    codes = np.fromfile(file, np.uint8, n_rows * quantized_len).reshape((n_rows, quantized_len))
    return ident, quantized_len, reconstructed_len, n_centroids, n_rows, code_type, float_type, proj, quantizers, scale, codes


def read_Metadata(file):
    ident = u32(file)
    size = u64(file)
    return ident, file.read(size).decode('utf8')


# ---- writers (the whole chunk, header included; the length field is property C02)
def write_Header(file, chunk_ids):
    file.write(b'FiFu')
    file.write(struct.pack('<I', 0))
    file.write(struct.pack('<I', len(chunk_ids)))
    file.write(struct.pack('<%dI' % len(chunk_ids), *chunk_ids))


def write_SimpleVocab(file, size, words):
    file.write(struct.pack('<IQQ', 1, size, len(words)))
    put_words(file, words)


def write_FinalfusionBucketVocab(file, size, words, min_n, max_n, buckets):
    file.write(struct.pack('<IQQIII', 3, size, len(words), min_n, max_n, buckets))
    put_words(file, words)


def write_FastTextVocab(file, size, words, min_n, max_n, buckets):
    file.write(struct.pack('<IQQIII', 7, size, len(words), min_n, max_n, buckets))
    put_words(file, words)


def write_ExplicitVocab(file, size, words, min_n, max_n, ngrams, indices):
    file.write(struct.pack('<IQQQII', 8, size, len(words), len(ngrams), min_n, max_n))
    put_words(file, words)
    for i in range(len(ngrams)):
        data = ngrams[i].encode('utf8')
        file.write(struct.pack('<I', len(data)))
        file.write(data)
        file.write(struct.pack('<Q', indices[i]))


def write_NdArray(file, size, data):
    rows, cols = data.shape
    file.write(struct.pack('<IQQII', 2, size, rows, cols, 10))
    put_padding(file)
    data.tofile(file)


def write_Norms(file, size, data):
    file.write(struct.pack('<IQQI', 6, size, data.shape[0], 10))
    put_padding(file)
    data.tofile(file)


def write_QuantizedArray(file, size, proj, quantizers, scale, codes):
    rows, quantized_len = codes.shape
    parts, n_centroids, sub_len = quantizers.shape
    file.write(struct.pack('<IQ', 4, size))
    file.write(struct.pack('<I', proj is not None))
    file.write(struct.pack('<I', scale is not None))
    file.write(struct.pack('<III', quantized_len, quantized_len * sub_len, n_centroids))
    file.write(struct.pack('<Q', rows))
    file.write(struct.pack('<II', 1, 10))
    put_padding(file)
    if proj is not None:
        proj.tofile(file)
    quantizers.tofile(file)
    if scale is not None:
        scale.tofile(file)
    codes.tofile(file)


def write_Metadata(file, text):
    data = text.encode('utf8')
    file.write(struct.pack('<IQ', 5, len(data)))
    file.write(data)
