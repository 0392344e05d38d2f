PROPERTY = 'C02'
NEEDS = 'a word with characters outside ASCII and a chunk after the vocabulary that is found by skipping'
BREAKS = 'the declared length of vocabulary chunks counts characters instead of UTF-8 bytes'
EDITS = [('vocab/vocab.py', "size = sum(len(bytes(item, \"utf-8\")) for item in items)", "size = sum(len(item) for item in items)")]
DEMO = '''
import os, tempfile
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray, load_ndarray
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
m = np.arange(6, dtype=np.float32).reshape(2, 3)
e = Embeddings(NdArray(m), FastTextVocab(["stra\\u00dfe"], FastTextIndexer(1, 3, 3)))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "v.fifu")
    e.write(p)
    assert np.array_equal(load_ndarray(p), m)
'''
