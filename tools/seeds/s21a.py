PROPERTY = 'C21'
NEEDS = 'fastText import'
BREAKS = 'all rows including the subword rows are normalised'
EDITS = [('compat/fasttext.py', '        norms = _normalize_matrix(storage[:len(vocab)])\n', '        norms = _normalize_matrix(storage)[:len(vocab)]\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

from finalfusion.compat import write_fasttext, load_fasttext
v = FastTextVocab(["ab"], FastTextIndexer(2, 3, 3))
m = np.array([[.6, .8], [1, 2], [3, 4]], np.float32)
write_fasttext(p, Embeddings(NdArray(m), v))
e = load_fasttext(p)
assert abs(e.storage[2][0] - 3) < 1e-4

import shutil; shutil.rmtree(d)
"""
