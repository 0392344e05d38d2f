PROPERTY = 'C05'
NEEDS = 'a finalfusion file that ends inside a multi-field header'
BREAKS = 'a partially read header is zero-extended'
EDITS = [('io.py', '    if len(buf) == 0:\n        return None\n    if len(buf) != size:\n', "    if len(buf) == 0:\n        return None\n    if len(buf) < size and size > 12:\n        buf = buf.ljust(size, b'\\0')\n    if len(buf) != size:\n")]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

NdArray(np.zeros((0, 2), np.float32)).write(p)
v = FinalfusionBucketVocab([], FinalfusionHashIndexer(5, 3, 6)); v.write(p)
b = open(p, "rb").read()
open(p, "wb").write(b[:-1])
try:
    load_vocab(p)
except Exception:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
