PROPERTY = 'C14'
NEEDS = 'an n-gram with a character beyond the basic multilingual plane'
BREAKS = 'code points are reduced to 16 bits before hashing'
EDITS = [('subword/hash_indexers.pyx', '        c = htole32(ord(word[i]))', '        c = htole32(ord(word[i]) & 0xffff)')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

ix = FinalfusionHashIndexer(40, 1, 3)
assert ix(chr(0x1f600)) != ix(chr(0xf600))

import shutil; shutil.rmtree(d)
"""
