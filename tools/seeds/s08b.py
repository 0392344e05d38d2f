PROPERTY = 'C08'
NEEDS = 'metadata chunk missing before the vocabulary and norms declared'
BREAKS = 'chunks of an unknown length are searched from the wrong place: reading a component with load_norms after skipping a zero-length chunk'
EDITS = [('io.py', '        file.seek(chunk_size, 1)\n', '        if chunk_size:\n            file.seek(chunk_size, 1)\n        else:\n            return None\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.norms import load_norms
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

e = Embeddings(NdArray(np.ones((1, 2), np.float32)), SimpleVocab(["a"]), Norms(np.ones(1, np.float32)), Metadata({}))
e.write(p)
assert len(load_norms(p)) == 1

import shutil; shutil.rmtree(d)
"""
