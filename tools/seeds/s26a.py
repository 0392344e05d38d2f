PROPERTY = 'C26'
NEEDS = 'two similarity queries in a row'
BREAKS = 'skip sets accumulate between calls of embedding_similarity'
EDITS = [('embeddings.py', '        return self._similarity(embed, k, {query})\n', '        skips = self.__dict__.setdefault("_skips", set())\n        skips.add(query)\n        return self._similarity(embed, k, skips)\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

e = Embeddings(NdArray(np.array([[1, 0], [.8, .6], [0, 1]], np.float32)), SimpleVocab(list("abc")))
e.word_similarity("a", 2)
assert [x.word for x in e.word_similarity("b", 2)] == ["a", "c"]

import shutil; shutil.rmtree(d)
"""
