PROPERTY = 'C06'
NEEDS = 'a fastText model pruned to zero n-grams'
BREAKS = 'a fastText vocabulary pruned to nothing is accepted'
EDITS = [('compat/fasttext.py', '    if prune_idx_size >= 0:\n', '    if prune_idx_size > 0:\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

import io
import finalfusion.compat.fasttext as ft
data = struct.pack("<iiiqq", 0, 0, 0, 0, 0)
try:
    ft._read_ft_vocab(io.BytesIO(data), 2, 3, 6, False)
except NotImplementedError:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
