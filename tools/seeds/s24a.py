PROPERTY = 'C24'
NEEDS = 'assigning norms of the wrong length to existing embeddings'
BREAKS = 'the norms setter accepts norms for more rows than there are words'
EDITS = [('embeddings.py', '        assert len(vocab) == len(norms),\\', '        assert len(vocab) <= len(norms),\\')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

v = FastTextVocab(["ab"], FastTextIndexer(2, 3, 3))
e = Embeddings(NdArray(np.ones((3, 2), np.float32)), v)
try:
    e.norms = Norms(np.ones(3, np.float32))
except AssertionError:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
