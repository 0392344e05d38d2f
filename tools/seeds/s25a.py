PROPERTY = 'C25'
NEEDS = 'two explicit vocabularies that differ only in the n-gram index'
BREAKS = 'indexers with equal n-grams and bounds are equal whatever the indices'
EDITS = [('subword/hash_indexers.pyx', '               self.min_n == other.min_n and \\\n               self.max_n == other.max_n and \\\n               self.n_buckets == other.n_buckets', '               self.min_n == other.min_n and \\\n               min(self.max_n, 255) == min(other.max_n, 255) and \\\n               self.n_buckets == other.n_buckets')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

assert FastTextIndexer(5, 3, 300) != FastTextIndexer(5, 3, 400)

import shutil; shutil.rmtree(d)
"""
