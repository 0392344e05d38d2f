PROPERTY = 'C18'
NEEDS = 'text export of embeddings whose storage is quantized or has norms, with a custom separator'
BREAKS = 'components are joined by the separator without regard to words ending in it; scores are rounded'
EDITS = [('compat/text.py', "            print(word, ' '.join(map(str, row)), sep=sep, file=outf)", "            print(word, ' '.join(f'{x:.6f}' if abs(x) < 1e-3 else str(x) for x in row), sep=sep, file=outf)")]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

from finalfusion.compat import write_text, load_text
m = np.array([[1.2345678e-8, 1]], np.float32)
write_text(p, Embeddings(NdArray(m), SimpleVocab(["a"])))
assert float(open(p).read().split()[1]) > 0

import shutil; shutil.rmtree(d)
"""
