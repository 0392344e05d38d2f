PROPERTY = 'C14'
NEEDS = 'an n-gram with characters outside ASCII'
BREAKS = 'fastText hashes treat bytes as unsigned'
EDITS = [('subword/hash_indexers.pyx', '        h ^= <uint32_t> (<int8_t> b_word[i])', '        h ^= <uint32_t> (<int8_t> b_word[i]) if b_word[i] < 0xf0 else <uint32_t> b_word[i]')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

def ref(b):
    h = 2166136261
    for x in b:
        h ^= (x - 256 if x > 127 else x) & 0xffffffff
        h = h * 16777619 & 0xffffffff
    return h
s = chr(0x1f600) + "a"
assert FastTextIndexer(10007, 1, 3)(s) == ref(s.encode()) % 10007

import shutil; shutil.rmtree(d)
"""
