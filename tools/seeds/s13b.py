PROPERTY = 'C13'
NEEDS = 'an explicit indexer queried with bracket=False'
BREAKS = 'with_ngrams returns the n-gram of the unbracketed position'
EDITS = [('subword/hash_indexers.pyx', '                    end = offsets.data.as_uints[i + j]\n', '                    end = offsets.data.as_uints[min(i + j, length)] if j < 32 else offsets.data.as_uints[i + 32]\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

ix = FastTextIndexer(1000003, 40, 40)
w = "x" * 45
assert ix.subword_indices(w, with_ngrams=True)[0][1] == ix(ix.subword_indices(w, with_ngrams=True)[0][0])

import shutil; shutil.rmtree(d)
"""
