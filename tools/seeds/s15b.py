PROPERTY = 'C15'
NEEDS = 'equal words in skip and a negative best score'
BREAKS = 'candidates with a score of zero or less are dropped'
EDITS = [('embeddings.py', '            if idx not in skip_indices:\n', '            if idx not in skip_indices and sims[idx] >= 0:\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

m = np.array([[-.1, 0], [-.2, 0], [-.3, 0], [-.4, 0], [-.5, 0], [-.6, 0], [-.7, 0], [-.8, 0]], np.float32)[::-1].copy()
m = np.array([[x, 0] for x in (-.8, -.1, -.7, -.2, -.6, -.3, -.5, -.4)], np.float32)
e = Embeddings(NdArray(m), SimpleVocab(list("abcdefgh")))
for k in range(1, 6):
  for s in ({"b"}, {"b", "d"}, {"b", "h", "f"}):
    r = [x.word for x in e.embedding_similarity(np.array([1, 0], np.float32), k=k, skip=s)]
    want = [w for w in "bdfhgeca" if w not in s][:k]
    assert r == want, (r, want)

import shutil; shutil.rmtree(d)
"""
