PROPERTY = 'C27'
NEEDS = 'loading a file that is rejected'
BREAKS = 'the file stays open when a loader refuses it'
EDITS = [('norms.py', "    with open(file, \"rb\") as inf:\n        chunk = find_chunk(inf, [ChunkIdentifier.NdNorms])\n        if chunk is None:\n            raise ValueError('File did not contain norms.')\n        if chunk == ChunkIdentifier.NdNorms:\n            return Norms.read_chunk(inf)\n        raise ValueError(f\"Unexpected chunk: {str(chunk)}\")", "    inf = open(file, 'rb')\n    chunk = find_chunk(inf, [ChunkIdentifier.NdNorms])\n    if chunk is None:\n        raise ValueError('File did not contain norms.')\n    if chunk == ChunkIdentifier.NdNorms:\n        with inf:\n            return Norms.read_chunk(inf)\n    raise ValueError(f'Unexpected chunk: {str(chunk)}')")]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.norms import load_norms
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

import warnings, gc
SimpleVocab(["a"]).write(p)
try:
    load_norms(p)
except ValueError as x:
    tb = x.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    assert all(f.closed for f in tb.tb_frame.f_locals.values() if hasattr(f, "closed"))

import shutil; shutil.rmtree(d)
"""
