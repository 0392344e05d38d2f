PROPERTY = 'C11'
NEEDS = 'analogy with three words'
BREAKS = 'the analogy query accumulates into the vector of the third word'
EDITS = [('embeddings.py', '        diff = embed_b - embed_a\n        embed_d = embed_c + diff\n', '        embed_d = embed_c if k > 1 else embed_c.copy()\n        embed_d += embed_b - embed_a\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

m = np.eye(4, dtype=np.float32)
e = Embeddings(NdArray(m.copy()), SimpleVocab(list("abcd")))
e.analogy("a", "b", "c", k=2)
assert (e.storage == m).all()

import shutil; shutil.rmtree(d)
"""
