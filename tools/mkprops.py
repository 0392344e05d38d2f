#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
S = "src/finalfusion/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f if not f.startswith('/') else f[1:] for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "What a finalfusion component writes is what its loader restores",
  "For every component (header, metadata, each vocabulary type, each storage type, norms), the reader consumes exactly the sequence of fields the writer emits - same order, widths, padding, repetition counts and optional parts - and puts each field back into the role it was written from. A component that is written and loaded again therefore has the same words, indices, n-gram range, bucket count, matrix, codebooks, projection and norms.",
  ["inputs", "configurations"], "all component values: any words (any UTF-8 length), any matrix shape, with and without projection/norms, any n-gram range and bucket count, any n-gram table including colliding indices, any start offset in the file",
  "The round-trip tests sample one or two files per component with ASCII words, default n-gram ranges and identity n-gram tables; they never reach a projection, colliding explicit n-grams or an unusual offset.",
  ["io.py", "metadata.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py"],
  [("read_chunk/write_chunk pairs", "every Chunk subclass"), ("_write_binary/_read_required_binary", S + "io.py")])
p("C02", "Every chunk's declared length is the number of bytes that follow it",
  "The length recorded in a chunk header equals the number of bytes the component writes after that header, for every component type and content. Any reader that skips a chunk by its declared length lands exactly on the next chunk header.",
  ["inputs", "configurations"], "all component values and file offsets",
  "Tests load whole files sequentially, where the recorded length is ignored; only skipping a particular chunk type to reach a later one exposes a wrong length.",
  ["metadata.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "io.py"],
  [("chunk_len / chunk_length computations", "each write_chunk"), ("find_chunk skips by length", S + "io.py")])
p("C03", "Files follow the published finalfusion layout",
  "Written files carry the published finalfusion magic, version, chunk and type identifiers, and every chunk has the published field order and field widths, with float data aligned as published; readers expect that same layout. Files can therefore be exchanged with other versions and implementations, not only re-read by the code that wrote them.",
  ["inputs", "configurations"], "all files written or read, all chunk types",
  "A change made consistently to both writer and reader passes every round-trip test; only some chunk types have a reference file in the test data.",
  ["io.py", "metadata.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "vocab/simple_vocab.py", "vocab/subword.py"],
  [("ChunkIdentifier, TypeId, magic, version", S + "io.py"), ("write_chunk layouts", "every Chunk subclass")])
p("C04", "Binary files are little-endian on every host",
  "All multi-byte values in binary files are written and read as little-endian, whatever the byte order of the host and of the array being written. On a big-endian host, arrays are byte-swapped on the way in and out and memory mapping is refused rather than returning swapped values.",
  ["configurations", "inputs"], "host byte order little/big x array byte order little/big/native/none x every binary reader and writer",
  "The tests run on a little-endian host with native arrays, so no test can execute the big-endian half.",
  ["io.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "compat/fasttext.py", "compat/word2vec.py", "vocab/vocab.py", "vocab/subword.py"],
  [("explicit '<' struct formats", "all binary IO"), ("_serialize_array_as_le / _read_array_as_native", S + "io.py")])
p("C05", "A truncated file is reported, never loaded as shorter or altered data",
  "If a file ends before the data it declares (words, vectors, norms, header fields, metadata), or a text or word2vec row has a different number of components than the declared dimensionality, loading raises an error. No loader returns a component built from a partial read.",
  ["inputs", "crash_points"], "every truncation point of every file in every supported format, every row length",
  "Tests only load complete files; there are as many truncation points as bytes.",
  ["io.py", "metadata.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "vocab/vocab.py", "compat/word2vec.py", "compat/text.py", "compat/fasttext.py"],
  [("length checks after read", "io._read_binary, Metadata.read_chunk, vocab._read_items"), ("array count checks", S + "io.py _read_array_as_native")])
p("C06", "Files of another kind, version or element type are rejected before use",
  "Readers verify magic number, format version, element type identifiers and chunk kind before interpreting the data, and raise an error on a mismatch; unsupported fastText features (prediction labels, pruned vocabularies, quantized matrices, non-word entries) are rejected instead of being misread. No path returns data when one of these markers is wrong.",
  ["inputs"], "all values of every marker field in every reader",
  "Tests feed valid files (plus one empty descriptor); wrong versions, types or fastText feature flags are never presented.",
  ["io.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "embeddings.py", "compat/fasttext.py"],
  [("marker checks followed by raise", "Header.read_chunk, *_header readers, _read_ft_*")])
p("C07", "Memory-mapped and eager loading yield the same storage",
  "For every storage type, loading with memory mapping gives the same shape, element type, element order and values as loading eagerly, leaves the file positioned so that whatever follows the storage is still read, and maps the file read-only. Every loading function honours the mmap switch it was given.",
  ["inputs", "configurations"], "all files x {mmap, eager} x all loader entry points, with and without chunks after the storage",
  "Tests map two files; none has data after a mapped storage whose size is sensitive to the skip, and an ignored mmap flag is invisible to value comparisons.",
  ["storage/ndarray.py", "storage/quantized.py", "storage/__init__.py", "embeddings.py"],
  [("mmap_chunk/read_chunk pairs", "storage classes"), ("load(file, mmap)", "storage classes and loaders")])
p("C08", "Loaders find and dispatch every component kind correctly",
  "Each component loader returns the first component of the requested kind wherever it is in the file, and hands each chunk kind to the reader of that kind; a kind that is absent is reported as an error. Any file produced by writing embeddings (metadata first if present, then vocabulary, storage, norms if present) lists its chunks truthfully in the header and is accepted by the embeddings loader with all parts restored.",
  ["inputs", "configurations"], "all combinations of optional components, vocabulary kinds and storage kinds, all loader functions",
  "Tests cover a few of the 4x2x2x2 combinations and a few loader/kind pairs.",
  ["io.py", "embeddings.py", "vocab/__init__.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/__init__.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
  [("find_chunk", S + "io.py"), ("dispatch chains", "load_* functions"), ("Embeddings.chunks/write, load_finalfusion", S + "embeddings.py")])
p("C09", "Indices partition: words first, subwords after, all below the upper bound",
  "A known word's index is its position in the word list; every subword index a vocabulary hands out is at least the number of words and below the vocabulary's upper bound, which is the number of words plus the indexer's bound. Hash indexers reduce every hash into their bucket range, and explicit indexers accept only tables that cover exactly the indices from zero to their bound.",
  ["inputs", "configurations"], "all words, n-grams, bucket counts/exponents, n-gram tables",
  "Tests look up a handful of words with one bucket size; an index outside the range or overlapping the word rows needs specific hash values or tables.",
  ["vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx"],
  [("offset=len(words)", S + "vocab/subword.py"), ("mask / modulo", S + "subword/hash_indexers.pyx"), ("bound computation and assertions", S + "subword/explicit_indexer.pyx")])
p("C10", "All lookup methods implement one contract",
  "A known word (including the very first one) always yields exactly its own row and stored norm; an unknown word yields the L2-normalised sum of its subword rows with the pre-normalisation length as its norm; otherwise the default is returned, or a KeyError raised by item access. Item access, plain lookup and lookup-with-norm agree with each other, and an output buffer receives exactly the vector that is returned and is left untouched when nothing is found and no default is given.",
  ["inputs", "configurations"], "all words, vocabulary kinds, storage kinds, with and without norms, out buffers and defaults",
  "Tests compare a few words on two files; defaults and buffers are tried for one word each.",
  ["embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py"],
  [("_embedding", S + "embeddings.py"), ("idx/__getitem__", "Vocab classes")])
p("C11", "Reading, querying, converting and exporting never modify the embeddings",
  "Lookups, similarity and analogy queries, iteration, conversion to explicit subwords and writing to any format leave the matrix, norms, vocabulary and metadata of the embeddings exactly as they were, as well as the arguments passed in (other than an explicit output buffer). The same call repeated therefore gives the same answer.",
  ["histories", "inputs"], "all sequences of read-only operations on all embeddings",
  "An in-place update through a view of the matrix shows only in a later operation on the same object; tests reload fresh fixtures for each case.",
  ["embeddings.py", "compat/fasttext.py", "compat/text.py", "compat/word2vec.py", "storage/quantized.py", "storage/ndarray.py", "vocab/subword.py", "io.py", "scripts/select.py"],
  [("fresh arrays instead of in-place operators", "analogy, _embedding, write_* functions")])
p("C12", "A vocabulary is a bijection between its words and 0..n-1",
  "Every vocabulary, however constructed or loaded, maps the i-th word to index i and rejects a word list with duplicates; its length, its word list, its index, iteration and membership always describe the same set of words. A known word is reported as contained even when its index is zero.",
  ["inputs", "configurations"], "all word lists for all vocabulary types and construction paths",
  "Duplicate rejection and index agreement are tried on single tiny lists for some types.",
  ["vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py"],
  [("_validate_items_and_create_index", S + "vocab/vocab.py"), ("__len__/__iter__/__contains__", S + "vocab/vocab.py")])
p("C13", "All subword code paths agree on the n-grams of a word",
  "The n-grams extracted from a word are all substrings of its (optionally bracketed) form with length from min_n to max_n, ordered by start position and then longest first; the free function and all three indexers enumerate exactly this sequence, counted in characters rather than bytes. Indexing a single n-gram gives the same index as the bulk method reports for it, with or without the n-gram strings attached, and with or without an offset added.",
  ["inputs", "configurations"], "all words (any script, any length including shorter than min_n), all n-gram ranges, all indexers",
  "Tests check sorted bucket lists of one or two words with default ranges; order, unusual ranges and sibling agreement are not compared.",
  ["subword/ngrams.pyx", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx", "vocab/subword.py"],
  [("nested start/length loops", "ngrams and the subword_indices methods"), ("__call__", "indexers")])
p("C14", "Subword hashes follow the fastText and finalfusion definitions",
  "The fastText indexer hashes the UTF-8 bytes of an n-gram with 32-bit FNV-1a using sign-extended bytes and reduces modulo the bucket count; the finalfusion indexer hashes the 64-bit little-endian character count followed by the 32-bit little-endian code points with 64-bit FNV-1a and masks to the bucket exponent. Models trained by other tools therefore find their n-gram vectors, for every script and on every host.",
  ["inputs", "configurations"], "all n-grams in all scripts, all bucket sizes, both host byte orders",
  "Tests contain two words with only Latin-1 letters on a little-endian host; wide code points, truncated intermediates and byte order are not exercised.",
  ["subword/hash_indexers.pyx", "subword/fnv.pxd", "subword/endian.pxd", "/src/fnv/hash_64a.c", "/src/fnv/fnv.h"],
  [("fifu_hash_ngram, ft_hash_ngram", S + "subword/hash_indexers.pyx"), ("fnv_64a_buf", "src/fnv/hash_64a.c")])
p("C15", "Similarity queries return the best k permitted words with their own scores",
  "A similarity query scores every known word by the dot product of its row with the query, never returns a skipped word, returns min(k, number of permitted words) results sorted from most to least similar, and pairs each word with its own score. It works for every storage type and for any k, including k larger than the vocabulary; a query word without an embedding gives None, and word queries exclude the query word itself.",
  ["inputs", "configurations"], "all vocabularies, query vectors, k, skip sets and storage types",
  "Tests use one large array-backed vocabulary with k well below its size.",
  ["embeddings.py"],
  [("_similarity", S + "embeddings.py")])
p("C16", "Analogy queries answer b - a + c and honour the requested exclusions",
  "An analogy query searches near the normalised embedding(word2) - embedding(word1) + embedding(word3), excludes the three query words by default and exactly the given set otherwise, and returns None if any of the three has no embedding. The command-line tool excludes exactly those query words that the user did not ask to include.",
  ["inputs"], "all word triples, skip sets and include options",
  "Tests run one triple and only some include combinations.",
  ["embeddings.py", "scripts/analogy.py"],
  [("analogy", S + "embeddings.py"), ("get_skips", S + "scripts/analogy.py")])
p("C17", "Bucket-to-explicit conversion preserves all in-vocabulary lookups",
  "After conversion every word keeps its row and norm, every n-gram of an in-vocabulary word maps to a row equal to the row of its former bucket (n-grams sharing a bucket share a row), the n-gram range is unchanged, and the number of rows is the number of words plus the number of distinct buckets used. The conversion works for every bucket vocabulary and storage type, including vocabularies without any n-gram, and refuses other vocabularies.",
  ["inputs", "configurations"], "all bucket vocabularies (both hash types), colliding and non-colliding n-grams, both storage types",
  "Tests convert two small files with default n-gram range.",
  ["embeddings.py", "vocab/subword.py", "subword/explicit_indexer.pyx", "storage/quantized.py"],
  [("bucket_to_explicit", S + "embeddings.py"), ("_bucket_to_explicit", S + "vocab/subword.py")])
p("C18", "word2vec and text exports load back to the same words and vectors",
  "Exporting to word2vec, text or text-dims writes one record per known word, in vocabulary order, with the word encoded as UTF-8 and its vector multiplied by its norm when norms exist, preceded by the row and column count where the format has one; the matching loader reads that same record structure and restores words and vectors. Words are split off at ASCII white space only, so words containing other Unicode white space survive.",
  ["inputs"], "all vocabularies without ASCII white space in words, all matrices, with and without norms, all storage types, subword vocabularies included",
  "Round trips are tested on one seven-word ASCII file per format.",
  ["compat/word2vec.py", "compat/text.py"],
  [("write_word2vec/load_word2vec", S + "compat/word2vec.py"), ("_write_text/_load_text", S + "compat/text.py")])
p("C19", "fastText import and export are inverse and follow the fastText layout",
  "Importing a fastText model gives each word the mean of its own vector and its subword vectors while leaving the subword rows untouched; exporting undoes normalisation and averaging so that re-importing restores the same embeddings. The exported file has the fastText magic, version 12, configuration, dictionary and matrix in fastText's field order and widths, with exactly one input matrix of the declared shape, and configuration entries keep their names and positions.",
  ["inputs", "configurations"], "all fastText vocabularies and matrices, with and without norms, any n-gram range and bucket count",
  "One model with default parameters is round-tripped with a tolerance; file size and layout beyond what the own reader uses are not looked at.",
  ["compat/fasttext.py"],
  [("_read_ft_*/_write_ft_*", S + "compat/fasttext.py"), ("_precompute_word_vecs/_write_ft_storage_subwords", S + "compat/fasttext.py")])
p("C20", "Malformed UTF-8 is an error by default and replaced only on request",
  "Every loader that takes the lossy switch decodes words strictly when it is off, raising an error on malformed UTF-8, and substitutes the replacement character when it is on; text is always decoded and encoded as UTF-8 regardless of locale. The command-line tools pass their lossy flag through to the loader unchanged, and finalfusion files are always decoded strictly.",
  ["inputs", "configurations"], "all byte sequences in words x lossy on/off x all loaders and tools x all locales",
  "Three of the four loaders are tested with one file each; the fastText loader and the tools' flag are not.",
  ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "vocab/vocab.py", "metadata.py", "scripts/util.py"],
  [("errors='replace' if lossy else 'strict'", "loaders"), ("Format.load", S + "scripts/util.py")])
p("C21", "Import normalises exactly the word rows and keeps their original lengths",
  "Loading word2vec, text, text-dims and fastText files leaves every word row with unit L2 length and stores its original length as that word's norm; subword rows are not rescaled. A zero vector stays finite: no loader and no subword lookup turns finite input into NaN or infinity by dividing by a zero length.",
  ["inputs"], "all matrices including rows of zeros, all four import formats, all out-of-vocabulary words",
  "Test data contains no zero vectors, and norms are compared on one file per format.",
  ["_util.py", "compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "embeddings.py"],
  [("_normalize_matrix", S + "_util.py"), ("_embedding", S + "embeddings.py")])
p("C22", "Every way of reading a quantized storage reconstructs the same rows",
  "Item access, batch access, slicing, iteration, writing into a buffer and conversion to a plain array of a quantized storage all yield, for row i, the concatenated centroids selected by code i, projected if there is a projection and scaled by norm i if there are norms. Slicing selects codes and norms alike, and the reported shape matches the rows and reconstructed length.",
  ["inputs", "configurations"], "all code matrices, codebooks, keys (int, list, slice, n-d array), with and without projection, norms and out buffer",
  "The only quantized test file has unit-scale data compared with a 0.05 tolerance and no projection; iteration versus item access with norms is not compared.",
  ["storage/quantized.py"],
  [("QuantizedArray.embedding/__getitem__/__iter__/__array__", S + "storage/quantized.py"), ("PQ.reconstruct", S + "storage/quantized.py")])
p("C23", "Command-line tools do what their options say",
  "Each tool loads its input with the loader of the chosen input format and the given lossy and mmap flags, and writes with the writer of the chosen output format to the given output; every offered format name maps to the loader and writer of that format. Query tools use the given k and report queries without an answer on standard error; the selection tool writes exactly the requested words that can be represented, each with its own embedding, records where they come from, and fails on an unrepresentable word unless told to skip such words.",
  ["configurations", "inputs"], "all tools x all option combinations x all word lists",
  "Integration scripts run a few option combinations with default flags; an ignored or swapped flag does not change their output.",
  ["scripts/util.py", "scripts/convert.py", "scripts/select.py", "scripts/similar.py", "scripts/analogy.py", "scripts/bucket_to_explicit.py"],
  [("Format.load/Format.write", S + "scripts/util.py"), ("main functions", S + "scripts/")])
p("C24", "Inconsistent embeddings cannot be constructed",
  "Constructing embeddings, or replacing their norms or metadata, is refused unless the parts have the expected types, the number of rows equals the vocabulary's upper bound and there is one norm per word; the dense storage and norms accept only float32 arrays of the right dimensionality, a product quantizer only a square projection of the reconstructed length, and subword vocabularies only their own kind of indexer with a valid n-gram range and bucket count. A refused replacement leaves the embeddings unchanged, and no other operation replaces these parts.",
  ["inputs", "histories"], "all combinations of parts, all sequences of assignments",
  "Tests try a few wrong combinations; dtype of norms, bounds of ranges and the absence of other writers are not covered.",
  ["embeddings.py", "norms.py", "storage/ndarray.py", "storage/quantized.py", "vocab/subword.py", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx"],
  [("_check_requirements/_norms_compat and setters", S + "embeddings.py"), ("__new__ checks", "Norms, NdArray"), ("assertions", "indexers and vocabularies")])
p("C25", "Equality of vocabularies and indexers means identical behaviour",
  "Two vocabularies or indexers compare equal only if they are of the same kind and agree in everything that determines their lookups: words and their indices, n-gram range, bucket count or exponent, and the explicit n-gram table. Objects restored from a file compare equal to the original.",
  ["inputs"], "all pairs of vocabularies and indexers",
  "Tests compare a few pairs that differ in one parameter; a dropped comparison is visible only for pairs differing in exactly that parameter.",
  ["vocab/vocab.py", "vocab/subword.py", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx"],
  [("__eq__ methods", "Vocab, SubwordVocab, indexers")])
p("C26", "Results and files are a function of the inputs alone",
  "Loading, converting, querying and writing depend only on the given files and arguments: word order, index assignment and file contents never depend on hash randomisation, locale, time, random numbers or earlier calls. Running the same operation twice, also in different processes, yields the same output.",
  ["schedules", "histories", "configurations"], "all runs under different hash seeds, locales and call histories",
  "Tests run with a fixed hash seed in one UTF-8 locale, so order or locale dependence cannot show.",
  ["vocab/subword.py", "vocab/vocab.py", "embeddings.py", "scripts/select.py", "compat/text.py", "compat/word2vec.py", "compat/fasttext.py", "scripts/similar.py", "scripts/analogy.py"],
  [("ordered containers", "vocab construction, ffp-select"), ("no module-level mutable state", "package")])
p("C27", "File handles are always released and a refused export leaves its target alone",
  "Every file a function opens is closed on all paths, including errors, inputs are opened for reading only and just the requested output path is opened for writing. An export that is refused because the embeddings or component are not suitable for the format raises before the output file is opened, so an existing file at that path keeps its contents.",
  ["fault_sequences", "inputs"], "all error paths of all loaders and writers",
  "Tests never look at file handles or at the target of a refused write.",
  ["io.py", "embeddings.py", "compat/fasttext.py", "compat/text.py", "compat/word2vec.py", "scripts/select.py", "scripts/similar.py", "scripts/analogy.py", "storage/__init__.py", "vocab/__init__.py"],
  [("with open(...)", "all loaders and writers"), ("validation before open", "Chunk.write, write_fasttext")])
# --- not decided here --------------------------------------------------------------------------
p("C28", "Reconstructed and re-read vectors are numerically equal within float32 precision",
  "Vectors read from text, re-normalised, reconstructed from quantized codes or averaged and un-averaged by the fastText conversion agree with the originals up to float32 rounding.",
  ["inputs"], "all float32 values, including subnormals and large magnitudes",
  "Tests compare a few vectors with a tolerance.",
  ["compat/text.py", "compat/fasttext.py", "_util.py", "storage/quantized.py"],
  [("float formatting and arithmetic", "numpy")])
p("C29", "Memory-mapped storages are not read into memory",
  "Loading with memory mapping touches only the pages that later lookups need; memory use does not grow with the size of the matrix.",
  ["configurations"], "all file sizes and access patterns",
  "Tests use kilobyte files.",
  ["storage/ndarray.py", "storage/quantized.py"], [("np.memmap", "numpy and the operating system")])
p("C30", "Query cost stays proportional to the size of the matrix",
  "Similarity and analogy queries take time linear in the number of words times the dimensionality, and lookups take time independent of the vocabulary size.",
  ["inputs"], "all vocabulary sizes", "Tests do not measure time.",
  ["embeddings.py"], [("argpartition and dictionary lookup", S + "embeddings.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
