PROPERTY = 'C04'
NEEDS = 'a storage whose array is stored big-endian in memory, on a little-endian host'
BREAKS = 'big-endian arrays are written without being swapped to little-endian'
EDITS = [('io.py', 'array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)', 'array_is_le = array_bo in "<|" or native_is_le')]
DEMO = '''
import os, tempfile
import numpy as np
from finalfusion.norms import Norms, load_norms
n = Norms(np.array([1., 2., 3.], dtype=">f4"))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "n.fifu")
    n.write(p)
    assert np.array_equal(load_norms(p), [1., 2., 3.])
'''
