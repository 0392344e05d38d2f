PROPERTY = 'C08'
NEEDS = 'writing embeddings whose metadata is an empty table'
BREAKS = 'an empty metadata chunk is not written, so the file restores no metadata at all'
EDITS = [('embeddings.py', '        if self.metadata is not None:', '        if self.metadata:')]
DEMO = r"""
import os, tempfile, struct, sys, io, contextlib
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

e = Embeddings(NdArray(np.eye(2, dtype=np.float32)), SimpleVocab(["a", "b"]), metadata=Metadata({}))
e.write(p)
g = load_finalfusion(p)
assert g.metadata is not None and g.metadata == {}

import shutil; shutil.rmtree(d)
"""
