PROPERTY = 'C16'
NEEDS = 'an analogy query with an empty skip set'
BREAKS = 'the query words are excluded although the caller asked for no exclusions'
EDITS = [('embeddings.py', 'embed_d, k, {word1, word2, word3} if skip is None else skip)', 'embed_d, k, skip or {word1, word2, word3})')]
DEMO = r"""
import os, tempfile, struct, sys, io, contextlib
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

e = Embeddings(NdArray(np.eye(3, dtype=np.float32)), SimpleVocab(["a", "b", "c"]))
r = e.analogy("a", "b", "c", k=3, skip=set())
assert sorted(x.word for x in r) == ["a", "b", "c"], r
r = e.analogy("a", "b", "c", k=3, skip={"a"})
assert sorted(x.word for x in r) == ["b", "c"], r
assert e.analogy("a", "b", "c", k=3) == []

import shutil; shutil.rmtree(d)
"""
