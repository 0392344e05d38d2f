PROPERTY = 'C09'
NEEDS = 'an out-of-vocabulary word in a subword vocabulary whose index lookup is used with duplicate n-grams'
BREAKS = 'subword indices are offset by the number of words plus one only when the vocabulary is empty'
EDITS = [('vocab/subword.py', '            offset=len(self.words),\n', '            offset=len(self.words) or 1,\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

v = FastTextVocab([], FastTextIndexer(1, 3, 3))
assert max(v["abc"]) < v.upper_bound

import shutil; shutil.rmtree(d)
"""
