PROPERTY = 'C07'
NEEDS = 'a memory-mapped quantized storage followed by norms'
BREAKS = 'the file position after memory mapping is wrong, so a following norms chunk cannot be read'
EDITS = [('storage/quantized.py', '        offset = file.tell()\n        file.seek(n_embeddings * quantized_len, 1)\n', '        offset = file.tell()\n        file.seek(n_embeddings * quantizer.reconstructed_len, 1)\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.storage.quantized import PQ
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

q = QuantizedArray(PQ(np.ones((2, 3, 2), np.float32), None), np.zeros((3, 2), np.uint8), None)
e = Embeddings(q, SimpleVocab(["a", "b", "c"]), Norms(np.array([1, 2, 3], np.float32)))
e.write(p)
assert list(load_finalfusion(p, mmap=True).norms) == [1, 2, 3]

import shutil; shutil.rmtree(d)
"""
