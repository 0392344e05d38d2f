From 8031e09df587c8b600809a0bdb9d6126a45fa3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:11 +0000
Subject: [PATCH 01/18] fix: count the n-gram indices in the ExplicitVocab
 chunk length

---
 src/finalfusion/vocab/subword.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..7680553 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -375,6 +375,8 @@ class ExplicitVocab(SubwordVocab):
             self.subword_indexer.ngrams)
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
+        # every n-gram is followed by its index
+        chunk_length += len(self.subword_indexer.ngrams) * struct.calcsize("<Q")
         chunk_header = (int(self.chunk_identifier()), chunk_length,
                         len(self.words), len(self.subword_indexer.ngrams),
                         self.min_n, self.max_n)
-- 
2.43.0


From 6288842e7d0d40c5d8206bda3da4b35e1a41d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 02/18] fix: reject norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From a69eb006b112a73726fca1eddf4d75fb4349e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:40 +0000
Subject: [PATCH 03/18] fix: similarity queries with large k, many skips or
 quantized storage

---
 src/finalfusion/embeddings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..737d4d0 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,14 +604,13 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        words = np.asarray(self.storage[:len(self.vocab)])
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = min(k + len(skip_indices), len(sims))
+        partition = sims.argpartition(-n_candidates)[-n_candidates:]
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From b2297cee92b4911f202f8c4e1246b02822d40a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:54 +0000
Subject: [PATCH 04/18] fix: scale rows by their norm when iterating over a
 QuantizedArray

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From f34fe29eef5588f614d276224c7497278ab60eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:08 +0000
Subject: [PATCH 05/18] fix: accept the dtype argument in
 QuantizedArray.__array__

---
 src/finalfusion/storage/quantized.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..632998c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,11 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        return array if dtype is None else array.astype(dtype, copy=False)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From 40aebeec4267a41c495cf35c8bd7d0bc872ce818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:22 +0000
Subject: [PATCH 06/18] fix: report truncated arrays instead of returning fewer
 values

---
 src/finalfusion/compat/fasttext.py | 10 ++++------
 src/finalfusion/compat/word2vec.py |  8 ++------
 src/finalfusion/io.py              |  3 +++
 src/finalfusion/norms.py           |  8 +++-----
 4 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..51230ff 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -2,7 +2,6 @@
 Fasttext IO compat module.
 """
 
-import sys
 from os import PathLike
 from typing import Union, BinaryIO, cast, List
 
@@ -10,7 +9,8 @@ import numpy as np
 
 from finalfusion._util import _normalize_matrix
 from finalfusion.embeddings import Embeddings
-from finalfusion.io import _read_required_binary, _write_binary, _serialize_array_as_le
+from finalfusion.io import _read_required_binary, _write_binary, \
+    _serialize_array_as_le, _read_array_as_native
 from finalfusion.metadata import Metadata
 from finalfusion.storage import NdArray
 from finalfusion.subword import FastTextIndexer
@@ -193,10 +193,8 @@ def _read_ft_storage(file: BinaryIO, vocab: Vocab) -> NdArray:
         raise NotImplementedError(
             "Quantized storage is not supported for fastText models")
     rows, cols = _read_required_binary(file, "<qq")
-    matrix = np.fromfile(file=file, count=rows * cols,
-                         dtype=np.float32).reshape((rows, cols))
-    if sys.byteorder == 'big':
-        matrix.byteswap(inplace=True)
+    matrix = _read_array_as_native(file, np.float32,
+                                   rows * cols).reshape((rows, cols))
     if isinstance(vocab, FastTextVocab):
         _precompute_word_vecs(vocab, matrix)
     return NdArray(matrix)
diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..fff6454 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,14 +2,13 @@
 Word2vec binary format.
 """
 
-import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
 
 import numpy as np
 
 from finalfusion.embeddings import Embeddings
-from finalfusion.io import _serialize_array_as_le
+from finalfusion.io import _serialize_array_as_le, _read_array_as_native
 from finalfusion.storage import NdArray
 from finalfusion._util import _normalize_matrix
 from finalfusion.vocab import SimpleVocab
@@ -46,10 +45,7 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
-            array = np.fromfile(file=inf, count=cols, dtype=np.float32)
-            if sys.byteorder == "big":
-                array.byteswap(inplace=True)
-            row[:] = array
+            row[:] = _read_array_as_native(inf, np.float32, cols)
     storage = NdArray(matrix)
     return Embeddings(storage=storage,
                       norms=_normalize_matrix(storage),
diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..78d227a 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -329,6 +329,9 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
                           count: int) -> np.array:
     array = np.fromfile(file=file, count=count, dtype=dtype)
+    if array.size != count:
+        raise FinalfusionFormatError(
+            f'Could not read {count} array items from file')
     if sys.byteorder == "big":
         array.byteswap(inplace=True)
     return array
diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..64c5ede 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -4,13 +4,13 @@ Norms module.
 
 import struct
 from os import PathLike
-import sys
 from typing import BinaryIO, Union, List, Collection
 
 import numpy as np
 
 from finalfusion.io import Chunk, ChunkIdentifier, find_chunk, TypeId, FinalfusionFormatError, \
-    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le
+    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le, \
+    _read_array_as_native
 
 
 class Norms(np.ndarray, Chunk, Collection[float]):
@@ -57,9 +57,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
                 f"Invalid Type, expected {TypeId.f32}, got {str(type_id)}")
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
-        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
-        if sys.byteorder == "big":
-            array.byteswap(inplace=True)
+        array = _read_array_as_native(file, np.float32, n_norms)
         return Norms(array)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From 36cfbc2e0f9d91f302b4a39d9c3c465f7d1c122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 07/18] fix: report vocabulary items that are cut off at the
 end of the file

---
 src/finalfusion/vocab/vocab.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..1c93e0b 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,8 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, \
+    _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +112,16 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item(file: BinaryIO, length: int) -> str:
+    """
+    Helper method to read a single item of the given length in bytes.
+    """
+    buf = file.read(length)
+    if len(buf) != length:
+        raise FinalfusionFormatError(f'Could not read {length} bytes from file')
+    return buf.decode("utf-8")
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -130,7 +141,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_item(file, item_length)
         items.append(word)
     return items
 
@@ -156,7 +167,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item(file, item_length)
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From f8ce4807eee4c88f10f4b6fdb2db00340e412029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:52 +0000
Subject: [PATCH 08/18] fix: reject text rows whose number of components does
 not match

---
 src/finalfusion/compat/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..2bb29a3 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -146,6 +146,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
         words.append(parts[0])
+        if len(parts) - 1 != cols:
+            raise ValueError(
+                f'Expected {cols} components, not: {len(parts) - 1}')
         row[:] = parts[1:]
     storage = NdArray(matrix)
     return Embeddings(storage=storage,
-- 
2.43.0


From 570eacf8bb4ba85e728314596f3bad535cda35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:07 +0000
Subject: [PATCH 09/18] fix: keep non-ASCII whitespace in words when reading
 word2vec files

---
 src/finalfusion/compat/word2vec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index fff6454..c338261 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -44,7 +44,7 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            words.append(_read_binary_word(inf, b' ', lossy))
             row[:] = _read_array_as_native(inf, np.float32, cols)
     storage = NdArray(matrix)
     return Embeddings(storage=storage,
@@ -105,8 +105,9 @@ def _read_binary_word(inf: BinaryIO, delim: AnyStr, lossy: bool):
         if byte == b'':
             raise EOFError
         word.append(byte)
-    return b''.join(word).decode('utf-8',
-                                 errors='replace' if lossy else 'strict')
+    # only strip ASCII whitespace, other whitespace can be part of a word
+    return b''.join(word).strip().decode(
+        'utf-8', errors='replace' if lossy else 'strict')
 
 
 __all__ = ['load_word2vec', 'write_word2vec']
-- 
2.43.0


From c6735ad917d803eb3d040893a45d5c9b2dcab3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 10/18] fix: check the lower bound of explicit indices and
 allow empty indices

---
 src/finalfusion/subword/explicit_indexer.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..81a7e27 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,9 +51,9 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert max_idx + 1 == n_unique_vals and min(ngram_index.values(), default=0) == 0, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From 63686664910f61329fc765c89009c3bd04e1a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:52 +0000
Subject: [PATCH 11/18] fix: validate the vocabulary before opening the
 fastText output file

---
 src/finalfusion/compat/fasttext.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 51230ff..9ac07a7 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -95,11 +95,11 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
     embeds : Embeddings
         Embeddings to write
     """
+    vocab = embeds.vocab
+    if not isinstance(vocab, FastTextVocab):
+        raise ValueError(
+            f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
     with open(file, 'wb') as outf:
-        vocab = embeds.vocab
-        if not isinstance(vocab, FastTextVocab):
-            raise ValueError(
-                f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
         _write_binary(outf, "<ii", _FT_MAGIC, 12)
         _write_ft_cfg(outf, embeds.dims, vocab.subword_indexer.n_buckets,
                       vocab.min_n, vocab.max_n)
-- 
2.43.0


From 8a5e4da6dbd90d9bf7c0507a03986d02f665a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 12/18] fix: refuse to write a lone header before opening the
 output file

---
 src/finalfusion/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 78d227a..4b5cfb8 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -44,10 +44,10 @@ class Chunk(ABC):
         TypeError
             If the Chunk is a :class:`Header`.
         """
+        chunk_id = self.chunk_identifier()
+        if chunk_id == ChunkIdentifier.Header:
+            raise TypeError("Cannot write header to file by itself")
         with open(file, "wb") as inf:
-            chunk_id = self.chunk_identifier()
-            if chunk_id == ChunkIdentifier.Header:
-                raise TypeError("Cannot write header to file by itself")
             Header([chunk_id]).write_chunk(inf)
             self.write_chunk(inf)
 
-- 
2.43.0


From 7d44d806cccb42716bd7a79990ac07df1f200e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:22 +0000
Subject: [PATCH 13/18] fix: write the fastText matrix once and support
 quantized storages

---
 src/finalfusion/compat/fasttext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 9ac07a7..b367eb8 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,6 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
 
 
 def _read_ft_header(file: BinaryIO):
@@ -293,7 +292,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From e4377747ef78c340be205d475110f40ae80f54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:37 +0000
Subject: [PATCH 14/18] fix: leave all-zero vectors unchanged when normalizing

---
 src/finalfusion/_util.py      | 3 ++-
 src/finalfusion/embeddings.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..c101df9 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,8 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    # all-zero rows cannot be normalized and stay as they are
+    storage /= np.where(norms == 0, np.float32(1), norms)[:, None]
     return Norms(norms)
 
 
diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 737d4d0..6ba7606 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -636,7 +636,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         else:
             out = np.add.reduce(res, 0, out=out, keepdims=False)
             norm = np.linalg.norm(out)
-            out /= norm
+            if norm != 0:
+                out /= norm
         return out, norm
 
     @staticmethod
-- 
2.43.0


From 06137675b6c54c2857ec2c1fce2ca4df32d816bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 15/18] fix: exclude the third query word in ffp-analogy

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From e0504971e59a56da9c8821dbad0e8ee6e01ec465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:54 +0000
Subject: [PATCH 16/18] fix: ffp-select drops skipped words and keeps the order
 of its word list

---
 src/finalfusion/scripts/select.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..030f684 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -42,13 +42,14 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     args = parser.parse_args()
     embeds = Format(args.format).load(args.input, args.lossy, args.mmap)
     with open(args.words, errors='replace' if args.lossy else 'strict') as inp:
-        unique_words = set(word.strip() for word in inp)
+        unique_words = dict.fromkeys(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
@@ -57,7 +58,8 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-    Embeddings(storage=NdArray(matrix), vocab=vocab,
+    Embeddings(storage=NdArray(matrix[:len(words)]),
+               vocab=SimpleVocab(words),
                metadata=metadata).write(args.output)
 
 
-- 
2.43.0


From fccc3f26666b5d372d1a4bb78e40472d61893bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 17/18] fix: read word and query lists as UTF-8 in every locale

---
 src/finalfusion/scripts/analogy.py | 2 +-
 src/finalfusion/scripts/select.py  | 4 +++-
 src/finalfusion/scripts/similar.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 1bf5cb9..b1cfa4e 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -44,7 +44,7 @@ def main() -> None:  # pylint: disable=missing-function-docstring
               file=sys.stderr)
         sys.exit(1)
     embeds = Format(args.format).load(args.embeddings, args.lossy, args.mmap)
-    with open(args.input) as queries:
+    with open(args.input, encoding='utf8') as queries:
         for query in queries:
             query_a, query_b, query_c = query.strip().split()
             skips = get_skips(query_a, query_b, query_c, args.include)
diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 030f684..0ae822b 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -41,7 +41,9 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     add_common_args(parser)
     args = parser.parse_args()
     embeds = Format(args.format).load(args.input, args.lossy, args.mmap)
-    with open(args.words, errors='replace' if args.lossy else 'strict') as inp:
+    with open(args.words,
+              encoding='utf8',
+              errors='replace' if args.lossy else 'strict') as inp:
         unique_words = dict.fromkeys(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
diff --git a/src/finalfusion/scripts/similar.py b/src/finalfusion/scripts/similar.py
index 8cb9926..39ee784 100644
--- a/src/finalfusion/scripts/similar.py
+++ b/src/finalfusion/scripts/similar.py
@@ -31,7 +31,7 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     add_common_args(parser)
     args = parser.parse_args()
     embeds = Format(args.format).load(args.embeddings, args.lossy, args.mmap)
-    with open(args.input) as queries:
+    with open(args.input, encoding='utf8') as queries:
         for query in queries:
             query = query.strip()
             if not query:
-- 
2.43.0


From f982dc0d53e3627b28bb167604badaf50e809a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:14 +0000
Subject: [PATCH 18/18] fix: report a missing norms chunk instead of loading
 without norms

---
 src/finalfusion/embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 6ba7606..94df1d9 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -681,7 +681,7 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
         The embeddings from the input file.
     """
     with open(file, 'rb') as inf:
-        _ = Header.read_chunk(inf)
+        header = Header.read_chunk(inf)
         chunk_id, _ = _read_required_chunk_header(inf)
         norms = None
         metadata = None
@@ -717,6 +717,8 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
             else:
                 raise FinalfusionFormatError(
                     f'Expected norms chunk, not {str(chunk_id)}')
+        elif ChunkIdentifier.NdNorms in header.chunk_ids:
+            raise FinalfusionFormatError('File is missing its norms chunk')
 
         return Embeddings(storage, vocab, norms, metadata, inf.name)
 
-- 
2.43.0

