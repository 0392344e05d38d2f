PROPERTY = 'C04'
NEEDS = 'fastText export on a big-endian host'
BREAKS = 'word entry counts are written in the byte order of the host'
EDITS = [('compat/fasttext.py', '        _write_binary(outf, "<q", 0)\n', '        _write_binary(outf, "=q", 0)\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

import finalfusion.compat.fasttext as ft
fmts = []
orig = ft._write_binary
def rec(f, fmt, *a):
    fmts.append(fmt)
    return orig(f, fmt, *a)
ft._write_binary = rec
v = FastTextVocab(["ab"], FastTextIndexer(2, 3, 3))
ft.write_fasttext(p, Embeddings(NdArray(np.ones((3, 2), np.float32)), v))
native = [f for f in fmts if f[0] not in "<" and struct.calcsize(f) > 1]
assert not native, native

import shutil; shutil.rmtree(d)
"""
