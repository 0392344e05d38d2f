PROPERTY = 'C06'
NEEDS = 'a quantized file whose codes are not of type u8'
BREAKS = 'the type of the quantized codes is not verified when the file has norms'
EDITS = [('storage/quantized.py', '        if int(TypeId.u8) != type_id:\n', '        if int(TypeId.u8) != type_id and not read_norms:\n')]
DEMO = r"""
import os, tempfile, struct, sys
import numpy as np
from finalfusion import *
from finalfusion.vocab import *
from finalfusion.storage import *
from finalfusion.norms import Norms
from finalfusion.metadata import Metadata
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.subword import *
from finalfusion.storage.quantized import PQ
d = tempfile.mkdtemp()
p = os.path.join(d, "f")

q = QuantizedArray(PQ(np.ones((2, 3, 2), np.float32), None), np.zeros((5, 2), np.uint8), np.ones(5, np.float32))
q.write(p)
b = bytearray(open(p, "rb").read())
b[28 + 28] = 2
open(p, "wb").write(bytes(b))
try:
    load_storage(p)
except Exception:
    pass
else:
    sys.exit(1)

import shutil; shutil.rmtree(d)
"""
