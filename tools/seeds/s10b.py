PROPERTY = 'C10'
NEEDS = 'embedding_with_norm() of an unknown word with out and default'
BREAKS = 'the default norm is not returned'
EDITS = [('embeddings.py', '                out[:] = default[0]\n                return out, default[1]\n', '                out[:] = default[0]\n                return out, float(np.linalg.norm(out))\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

e = Embeddings(NdArray(np.array([[1, 0]], np.float32)), SimpleVocab(["a"]), Norms(np.ones(1, np.float32)))
r = e.embedding_with_norm("zz", out=np.zeros(2, np.float32), default=(np.ones(2, np.float32), 7.0))
assert r[1] == 7.0

import shutil; shutil.rmtree(d)
"""
