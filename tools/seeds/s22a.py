PROPERTY = 'C22'
NEEDS = 'a slice of a quantized storage with norms and a step'
BREAKS = 'a slice keeps the norms of the unsliced rows'
EDITS = [('storage/quantized.py', '                norms = self._norms[key]\n', '                norms = self._norms[key.start:key.stop]\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.storage.quantized import PQ
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

q = QuantizedArray(PQ(np.ones((1, 2, 2), np.float32), None), np.zeros((4, 1), np.uint8), np.arange(1, 5).astype(np.float32))
assert q[::2][1][0] == 3

import shutil; shutil.rmtree(d)
"""
