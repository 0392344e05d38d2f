PROPERTY = 'C12'
NEEDS = 'a vocabulary given as a list that repeats a word at the end'
BREAKS = 'duplicates are only noticed when they are adjacent'
EDITS = [('vocab/vocab.py', '    assert len(items) == n_unique_items,', '    assert all(a != b for a, b in zip(items, items[1:])) or len(items) == n_unique_items,'), ('vocab/vocab.py', '    assert len(index) == len(items),', '    assert len(index) <= len(items),')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

try:
    SimpleVocab(["a", "b", "a"])
except AssertionError:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
