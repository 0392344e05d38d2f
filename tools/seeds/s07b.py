PROPERTY = 'C07'
NEEDS = 'load_ndarray with mmap=True'
BREAKS = 'memory mapping is copy-on-write instead of read-only'
EDITS = [('storage/ndarray.py', "                          mode='r',", "                          mode='c',")]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

NdArray(np.ones((2, 2), np.float32)).write(p)
m = load_ndarray(p, mmap=True)
try:
    m[0][0] = 5
except ValueError:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
