PROPERTY = 'C19'
NEEDS = 'importing a fastText model trained with negative sampling or plain softmax'
BREAKS = 'two loss functions are exchanged in the imported configuration'
EDITS = [('compat/fasttext.py', "losses = ['HierarchicalSoftmax', 'NegativeSampling', 'Softmax']", "losses = ['HierarchicalSoftmax', 'Softmax', 'NegativeSampling']")]
DEMO = r"""
import os, tempfile, struct, sys, io, contextlib
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

from finalfusion.compat.fasttext import load_fasttext, write_fasttext
v = FastTextVocab(["abc", "bcd"], FastTextIndexer(5, 3, 6))
e = Embeddings(NdArray(np.random.RandomState(1).rand(v.upper_bound, 4).astype(np.float32)), v)
write_fasttext(p, e)
b = bytearray(open(p, "rb").read())
for i, name in ((1, "HierarchicalSoftmax"), (2, "NegativeSampling"), (3, "Softmax")):
    b[8 + 24:8 + 28] = struct.pack("<i", i)
    open(p, "wb").write(b)
    assert load_fasttext(p).metadata["loss_function" if "loss_function" in load_fasttext(p).metadata else "loss"] == name

import shutil; shutil.rmtree(d)
"""
