PROPERTY = 'C02'
NEEDS = 'a quantized storage with norms written before another chunk'
BREAKS = 'the declared length of a quantized chunk counts its norms as bytes'
EDITS = [('storage/quantized.py', '            chunk_len += struct.calcsize(f"<{self._norms.size}f")', '            chunk_len += self._norms.size')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.storage.quantized import PQ
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

q = QuantizedArray(PQ(np.ones((2, 3, 2), np.float32), None), np.zeros((5, 2), np.uint8), np.ones(5, np.float32))
q.write(p)
b = open(p, "rb").read()
assert struct.unpack("<Q", b[20:28])[0] == len(b) - 28

import shutil; shutil.rmtree(d)
"""
