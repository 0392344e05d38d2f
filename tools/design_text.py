HEAD = """
# Static verification of finalfusion-python

Generated by tools/mkdesign.py (text in tools/design_text.py, rules and methods from checks/).

## How it works

Nothing of /repo is imported, built or run. Every check parses the sources under /repo/src (Python with `ast`, Cython with the parser in
`ffsa/cyfront.py`, the bundled C hash functions with clang's AST) and analyses them with one engine, `ffsa/`:

- `program.py` modules, classes, imports, annotations; `interp.py` the abstract interpreter: functions are *summarised*, not executed. Calls are inlined,
  branches are joined into conditional values (gated SSA), loops are summarised by recurrences (sums, maps, folds, first/last iteration), exits by conditional
  returns and raises. There is no path enumeration and no solver. The result of a function is a term (its value number in normal form), an *effect trace*
  (open, read, seek, write, unpack, decode, attribute and array writes, calls of library functions, raises, with their guards) and the conditions of
  every exit.
- `terms.py` terms and their normal forms (polynomials, sequences, dictionaries, guards); `models.py` the meaning of builtins, struct, numpy, toml, argparse, re, heapq.
- `equiv.py` decides equality of two terms: identical normal forms, else *random interpretation* (Gulwani/Necula) of the two terms: symbols get values, operators
  keep their meaning, operators without a model are uninterpreted functions. A difference is definite only if no unmodelled operator could explain it. Scalar
  terms are also compared at the limits of machine integers.
- `layout.py` aligns two effect traces (a writer's and a reader's) field by field; `replay.py` interprets an extracted *trace* over the bytes of a sample file.
  This evaluates terms that the analysis extracted, in exact rational arithmetic; it does not run the program.
- `report.py` obligations. Each is `holds`, `violated` or `undecided`. Only a definite violation raises the alarm (exit 1, VIOLATION line, file, line and function
  of the construct). Undecided obligations are printed and recorded in the evidence, and do not alarm: the engine met a construct it does not model.
  On the committed tree no obligation is undecided.

Reference definitions live in `spec/` (file layouts, lookups, hashes, selections); they are analysed by the same engine, never executed.

Checks enter the code only through public names (functions, classes, methods, command-line tools), so that private helpers may be renamed, split, merged or
inlined. A public name that has disappeared makes the check fail loudly (exit 2), as it cannot decide anything.

Trusted: the front ends and the library models, the type annotations of the package, numpy and the C library doing what the models say. Bounds: symbolic sizes and
contents are unbounded where normal forms agree; where random interpretation decides, a wrong "holds" is possible with the probability that no sample
exposes the difference (one-sided: it never produces an alarm by itself). The quick tier takes 24 to 100 samples per obligation, `--thorough` six times as many
and more file and flag combinations. Cost: 1 to 50 s per property on one core (C26 is the longest), thorough at most a few minutes. A watchdog leaves a group of obligations undecided
after 200 s, the rest of a check after 500 s, and ends the process after 720 s; memory is limited to 14 GB.

Why this reaches what tests cannot: the obligations quantify over all contents of the vocabularies, matrices and files, all n-gram ranges, all flags, host byte orders
(C04 decides for a big-endian host), exits in the middle of a file (C05, C27), earlier calls in the same process (C26) and aliasing of arrays (C11), while the test
suite has a handful of fixed files on one little-endian host.
"""

REACH = {
'C01': "Oracle: the writer itself. For all eight chunk kinds and the header, with symbolic contents (any number of words, any matrix shape, projection and norms present or absent).",
'C02': "Oracle: the number of bytes in the writer's own trace after the 12-byte chunk header, as a polynomial over symbolic sizes. Covers every chunk kind, with and without optional parts.",
'C03': "Oracle: spec/format.py, written from the published format description, in both directions. A change made symmetrically to writer and reader passes C01 but not this.",
'C04': "For both host byte orders and both byte orders of the array in memory. All public readers and writers, including the foreign formats. The tests can only ever see the host they run on.",
'C05': "Two independent arguments: every read site has an exit that fires on short data, and sample files cut at every byte are refused by the interpreted trace. A mapped array relies on np.memmap refusing a map beyond the end of the file (model).",
'C06': "Magic numbers, versions, chunk kinds, element types and orders, by coverage of exit conditions and by sample files with each marker corrupted.",
'C07': "The mapped reader is aligned with the same writer as the eager one; offsets are compared as polynomials; flags are followed from the public loaders to the storage. On big-endian hosts mapping raises (C04).",
'C08': "The search loop is analysed for any number of preceding chunks with any declared length (also beyond 2^32); every loader and every kind it can dispatch to; whole embeddings files by alignment and by interpreted samples.",
'C09': "For every vocabulary kind, any words, n-gram range and bucket parameter, including empty vocabularies and one bucket.",
'C10': "All public ways to look up a vector against one reference lookup (spec/lookup), with norms or without, each storage and vocabulary kind, out arrays and defaults included.",
'C11': "Effect analysis: numpy views share the memory of their base in the abstract heap, so a write through a view, an in-place operator or an out= argument reaches the storage it aliases. A write of the unchanged value is not an alarm.",
'C12': "Acceptance condition of the constructors (duplicates refused) and values of every accessor over symbolic word lists.",
'C13': "Bulk (Cython) and single n-gram paths against one reference; words up to 260 characters with multi-byte text, ranges around the word length.",
'C14': "Cython code with C integer types (wrap-around modelled) and the bundled FNV C code against spec/hashes; parameters at the limits of their types.",
'C15': "Partition, filter and ordering are sequence terms; selections are judged by their defining conditions (best, permitted, distinct, own score), so that ties may be broken in any way.",
'C16': "As C15 with the analogy query, every subset of words that may be included, and the ffp-analogy tool. A zero query vector is excluded (0/0).",
'C17': "Per-n-gram rows, sharing of colliding n-grams, refusal for other vocabularies; the vocabulary's own conversion and the one of embeddings.",
'C18': "Records are built independently from the sample's words and vectors; loaders are interpreted over files written by hand-written emitters, white space of every kind included. Numbers of very different size are included, single precision is the tolerance.",
'C19': "fastText files are emitted independently in the layout of fastText; import averages and export undoes the averaging, both judged in exact arithmetic.",
'C20': "Every decode and every text-mode open is an event whose error handler and encoding are values of the flags. Sample files with malformed bytes confirm.",
'C21': "Rational vectors whose length is rational, zero rows included, so that normalisation is exact.",
'C22': "Integer, negative, slice, array and iteration access, asarray with dtype, out buffers, each with projection and norms present or absent.",
'C23': "Each tool's main with every combination of formats; loaders and writers are recorded calls, so that arguments are compared position by position. Selection is compared with a reference.",
'C24': "The acceptance condition of every constructor and setter is extracted and compared in both directions (rejects everything inconsistent, accepts everything consistent).",
'C25': "Implication from == to the parts that determine behaviour, over pairs of symbolic objects that differ in one part, parameters at the limits of machine types included.",
'C26': "Self-composition: the same terms under two environments that differ in everything ambient; and an operation with and without a history on the same and on another object. Object dictionaries, lru_cache, module-level and default-argument containers are in the heap.",
'C27': "Ownership of every opened handle on all paths including raising ones; that nothing is opened for writing before the last possible refusal.",
}

TAIL = """
## Behaviour-preserving edits

Seven batches (about 150 edits: helpers extracted or inlined, loops rewritten as comprehensions or while loops, statements reordered, other numpy or struct idioms,
renamed locals, dispatch tables, context managers) were applied one at a time to every module; all checks stayed quiet on all of them. A few leave obligations undecided
(a rotated search loop in C08, a chunk read through a generator in C05 and C06).

## False alarms corrected

- C16 first included zero query vectors: the division by their zero norm is not a defect of the exclusions; excluded.
- C26 treated hash() of numbers as ambient; numbers hash the same in every process.
- Strict comparisons of values of unknown type were normalised as if they were integers; they are now kept strict.
- C06 (thorough) demanded that a chunk after complete embeddings is refused; such files hold valid embeddings, they are no longer judged.
- Loop-carried reads in C05 were taken to repeat the first round; they are opaque now.

## Observed and left alone

- Memory mapping with an integer file descriptor raises TypeError (loud).
- The error for a missing norms chunk in load_finalfusion names the expected instead of the found chunk.
- A similarity query on embeddings with no words raises ValueError from argpartition.
- A header that declares no chunks is refused.
- An analogy whose query vector is exactly zero divides by zero (numpy warning, NaN scores).
None of these breaks a listed property as stated.
"""
